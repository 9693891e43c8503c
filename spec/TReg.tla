------------------------------- MODULE TReg --------------------------------
EXTENDS Soc, TraceKit
=============================================================================
