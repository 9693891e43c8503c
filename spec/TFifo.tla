------------------------------- MODULE TFifo --------------------------------
EXTENDS Fifo, TraceKit
=============================================================================
