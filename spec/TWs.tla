------------------------------- MODULE TWs --------------------------------
EXTENDS Ws, TraceKit
=============================================================================
