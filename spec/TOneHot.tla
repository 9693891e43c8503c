------------------------------- MODULE TOneHot --------------------------------
EXTENDS Wiring, TraceKit
=============================================================================
