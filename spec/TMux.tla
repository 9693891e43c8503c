------------------------------- MODULE TMux --------------------------------
EXTENDS Arbiter, TraceKit
=============================================================================
