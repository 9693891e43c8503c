------------------------------- MODULE TFilt --------------------------------
EXTENDS Filt, TraceKit
=============================================================================
