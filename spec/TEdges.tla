------------------------------- MODULE TEdges --------------------------------
EXTENDS Edges, TraceKit
=============================================================================
