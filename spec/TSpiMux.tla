------------------------------- MODULE TSpiMux --------------------------------
EXTENDS Spi, TraceKit
=============================================================================
