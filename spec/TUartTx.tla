------------------------------- MODULE TUartTx --------------------------------
EXTENDS Uart, TraceKit
=============================================================================
