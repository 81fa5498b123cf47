CONSTANTS MaxItems = 7
 MaxStride = 3
 MaxCores = 3
 Atomic = TRUE
SPECIFICATION Spec
INVARIANTS Once Twice
PROPERTY Ends
