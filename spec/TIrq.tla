------------------------------- MODULE TIrq --------------------------------
EXTENDS Soc, TraceKit
=============================================================================
