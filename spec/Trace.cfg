INIT TraceInit
NEXT TraceNext
VIEW TraceView
CHECK_DEADLOCK FALSE
