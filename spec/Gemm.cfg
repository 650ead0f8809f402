CONSTANTS GR = 2 GC = 2 Rows = 40 Cols = 3 KR = 32 Unit = 32 Emit = FALSE
SPECIFICATION Spec
INVARIANTS OncePerWord Disjoint Complete
PROPERTY Terminates
CHECK_DEADLOCK FALSE
