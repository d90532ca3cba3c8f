INIT TraceInit
NEXT TraceNext
VIEW View
CHECK_DEADLOCK FALSE
