------------------------------- MODULE TPkt --------------------------------
EXTENDS Gen, TraceKit
=============================================================================
