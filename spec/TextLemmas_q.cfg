CONSTANTS B = 16
 Vals4 = {0, 1, 255, 256, 4660, 32768, 65280, 65534, 65535}
 Vals6 = {0, 171}
INIT Init
NEXT Next
INVARIANTS RoundTrip Spellings Canonical Binary Masks
CHECK_DEADLOCK FALSE
