------------------------------- MODULE TIlaStream --------------------------------
EXTENDS IlaOut, TraceKit
=============================================================================
