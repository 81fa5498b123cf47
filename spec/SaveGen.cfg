INIT SInit
NEXT SNext
CONSTANT Slots = {0, 1}
CONSTANT MaxN = 11
INVARIANT STypeOK
CHECK_DEADLOCK FALSE
