------------------------------- MODULE TWb --------------------------------
EXTENDS Soc, TraceKit
=============================================================================
