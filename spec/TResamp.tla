------------------------------- MODULE TResamp --------------------------------
EXTENDS Resamp, TraceKit
=============================================================================
