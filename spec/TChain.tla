------------------------------- MODULE TChain --------------------------------
EXTENDS Adapt, TraceKit
=============================================================================
