------------------------------- MODULE TSpiCmd --------------------------------
EXTENDS Spi, TraceKit
=============================================================================
