------------------------------- MODULE TLfsr --------------------------------
EXTENDS Shift, TraceKit
=============================================================================
