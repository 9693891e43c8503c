------------------------------- MODULE TCic --------------------------------
EXTENDS Cic, TraceKit
=============================================================================
