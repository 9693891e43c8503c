------------------------------- MODULE TUartRx --------------------------------
EXTENDS Uart, TraceKit
=============================================================================
