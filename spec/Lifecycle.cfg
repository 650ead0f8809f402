CONSTANTS NShapes = 3 MaxLen = 10 ResetKernel = TRUE Indirect = TRUE Emit = TRUE
SPECIFICATION Spec
INVARIANTS Fresh EmitInv
CHECK_DEADLOCK FALSE
