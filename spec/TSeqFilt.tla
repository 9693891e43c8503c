------------------------------- MODULE TSeqFilt --------------------------------
EXTENDS Filt, TraceKit
=============================================================================
