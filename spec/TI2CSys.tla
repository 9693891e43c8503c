------------------------------- MODULE TI2CSys --------------------------------
EXTENDS I2CSys, TraceKit
=============================================================================
