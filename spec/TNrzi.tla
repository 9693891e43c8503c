------------------------------- MODULE TNrzi --------------------------------
EXTENDS Shift, TraceKit
=============================================================================
