CONSTANTS Clients = {1, 2}
 MaxOps = 2
 Spurious = FALSE
 DumpAware = TRUE
SPECIFICATION Spec
INVARIANTS Conforms OneAtATime
PROPERTY Terminates
