------------------------------- MODULE TGen --------------------------------
EXTENDS Gen, TraceKit
=============================================================================
