CONSTANTS GR = 3 GC = 2 Rows = 3 Cols = 2 KR = 1 Unit = 1 Emit = TRUE
SPECIFICATION Spec
INVARIANTS OncePerWord Complete EmitInv
CHECK_DEADLOCK FALSE
