CONSTANTS B = 3
INIT Init
NEXT Next
