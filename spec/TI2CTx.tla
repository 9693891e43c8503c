------------------------------- MODULE TI2CTx --------------------------------
EXTENDS I2C, TraceKit
=============================================================================
