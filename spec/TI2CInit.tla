------------------------------- MODULE TI2CInit --------------------------------
EXTENDS I2C, TraceKit
=============================================================================
