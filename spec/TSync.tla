------------------------------- MODULE TSync --------------------------------
EXTENDS Wiring, TraceKit
=============================================================================
