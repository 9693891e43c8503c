------------------------------- MODULE TSeg --------------------------------
EXTENDS Wiring, TraceKit
=============================================================================
