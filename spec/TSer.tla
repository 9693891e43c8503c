------------------------------- MODULE TSer --------------------------------
EXTENDS Gen, TraceKit
=============================================================================
