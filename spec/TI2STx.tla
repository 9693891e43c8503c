------------------------------- MODULE TI2STx --------------------------------
EXTENDS I2S, TraceKit
=============================================================================
