------------------------------- MODULE TSpiCtl --------------------------------
EXTENDS Spi, TraceKit
=============================================================================
