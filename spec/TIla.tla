------------------------------- MODULE TIla --------------------------------
EXTENDS Ila, TraceKit
=============================================================================
