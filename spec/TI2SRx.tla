------------------------------- MODULE TI2SRx --------------------------------
EXTENDS I2S, TraceKit
=============================================================================
