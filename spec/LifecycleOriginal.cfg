CONSTANTS NShapes = 3 MaxLen = 10 ResetKernel = FALSE Indirect = TRUE Emit = FALSE
SPECIFICATION Spec
INVARIANTS Fresh EmitInv
CHECK_DEADLOCK FALSE
