------------------------------- MODULE TShOut --------------------------------
EXTENDS Shift, TraceKit
=============================================================================
