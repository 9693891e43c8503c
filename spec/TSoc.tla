------------------------------- MODULE TSoc --------------------------------
EXTENDS Soc, TraceKit
=============================================================================
