------------------------------- MODULE TLedArray --------------------------------
EXTENDS Spi, TraceKit
=============================================================================
