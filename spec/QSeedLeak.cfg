INIT Init
NEXT Next
CONSTANTS
 Worlds = {0, 1}
 Seeds = {1, 2}
 ProgLen = 4
 Private = FALSE
INVARIANTS SameOutcomes Restarts
CHECK_DEADLOCK FALSE
