------------------------------- MODULE THb --------------------------------
EXTENDS Filt, TraceKit
=============================================================================
