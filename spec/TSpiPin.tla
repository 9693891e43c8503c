------------------------------- MODULE TSpiPin --------------------------------
EXTENDS Spi, TraceKit
=============================================================================
