------------------------------- MODULE TResp --------------------------------
EXTENDS Filt, TraceKit
=============================================================================
