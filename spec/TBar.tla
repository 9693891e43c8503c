------------------------------- MODULE TBar --------------------------------
EXTENDS Wiring, TraceKit
=============================================================================
