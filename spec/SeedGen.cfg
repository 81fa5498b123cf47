INIT GInit
NEXT DNext
CONSTANT Slots = {0, 1}
CONSTANT MaxN = 11
CHECK_DEADLOCK FALSE
