------------------------------- MODULE TSpiReg --------------------------------
EXTENDS Spi, TraceKit
=============================================================================
