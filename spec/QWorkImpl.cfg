CONSTANTS Clients = {1, 2}
 MaxOps = 3
 Spurious = TRUE
 DumpAware = TRUE
SPECIFICATION Spec
INVARIANTS Conforms OneAtATime
