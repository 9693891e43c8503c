------------------------------- MODULE TBits --------------------------------
EXTENDS Bits, TraceKit
=============================================================================
