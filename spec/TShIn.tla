------------------------------- MODULE TShIn --------------------------------
EXTENDS Shift, TraceKit
=============================================================================
