------------------------------- MODULE TUp --------------------------------
EXTENDS Soc, TraceKit
=============================================================================
