------------------------------- MODULE TArbiter --------------------------------
EXTENDS Arbiter, TraceKit
=============================================================================
