------------------------------- MODULE TIlaSpi --------------------------------
EXTENDS IlaOut, TraceKit
=============================================================================
