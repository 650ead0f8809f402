CONSTANTS GR = 2 GC = 2 Rows = 2 Cols = 2 KR = 1 Unit = 1 Emit = TRUE
SPECIFICATION Spec
INVARIANTS OncePerWord Complete EmitInv
CHECK_DEADLOCK FALSE
