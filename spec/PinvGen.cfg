INIT PInit
NEXT PNext
CONSTANTS
 Slots = {0, 1, 2}
 MaxN = 11
INVARIANT PTypeOK
CHECK_DEADLOCK FALSE
