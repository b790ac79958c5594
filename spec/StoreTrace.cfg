CONSTANTS B = 16
 Sharing = FALSE
INIT TraceInit
NEXT TraceNext
