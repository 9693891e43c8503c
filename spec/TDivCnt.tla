------------------------------- MODULE TDivCnt --------------------------------
EXTENDS Dividers, TraceKit
=============================================================================
