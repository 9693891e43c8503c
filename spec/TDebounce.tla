------------------------------- MODULE TDebounce --------------------------------
EXTENDS Debounce, TraceKit
=============================================================================
