------------------------------- MODULE TTimer --------------------------------
EXTENDS Timer, TraceKit
=============================================================================
