------------------------------- MODULE TLink --------------------------------
EXTENDS Adapt, TraceKit
=============================================================================
