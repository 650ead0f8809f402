SPECIFICATION Spec
CONSTANTS K = 3
 MaxLen = 1
 Unit = 2
 Loose = {"act"}
INVARIANTS Same
CHECK_DEADLOCK FALSE
