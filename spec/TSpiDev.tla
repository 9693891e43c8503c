------------------------------- MODULE TSpiDev --------------------------------
EXTENDS Spi, TraceKit
=============================================================================
