CONSTANTS B = 16
 Sharing = TRUE
INIT TraceInit
NEXT TraceNext
