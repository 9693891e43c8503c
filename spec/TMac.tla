------------------------------- MODULE TMac --------------------------------
EXTENDS Mac, TraceKit
=============================================================================
