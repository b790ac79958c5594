CONSTANTS B = 16
 Vals4 = {0, 1, 9, 10, 99, 100, 199, 200, 255, 256, 2570, 4660, 25700, 32768, 49152, 65280, 65534, 65535}
 Vals6 = {0, 1, 65535}
INIT Init
NEXT Next
INVARIANTS RoundTrip Spellings Canonical Binary Masks
CHECK_DEADLOCK FALSE
