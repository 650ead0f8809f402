SPECIFICATION Spec
CONSTANTS K = 3
 MaxLen = 2
 Unit = 2
 Loose = {}
INVARIANTS Same Reached
CHECK_DEADLOCK FALSE
