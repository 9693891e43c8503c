------------------------------- MODULE TIlaUart --------------------------------
EXTENDS IlaOut, TraceKit
=============================================================================
