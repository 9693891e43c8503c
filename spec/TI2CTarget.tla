------------------------------- MODULE TI2CTarget --------------------------------
EXTENDS I2CT, TraceKit
=============================================================================
