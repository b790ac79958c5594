CONSTANTS B = 2
INIT Init
NEXT Next
