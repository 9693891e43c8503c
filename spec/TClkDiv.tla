------------------------------- MODULE TClkDiv --------------------------------
EXTENDS Dividers, TraceKit
=============================================================================
