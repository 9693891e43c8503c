------------------------------- MODULE TFft --------------------------------
EXTENDS Fft, TraceKit
=============================================================================
