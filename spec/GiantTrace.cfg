CONSTANT B = 16
INIT TraceInit
NEXT TraceNext
