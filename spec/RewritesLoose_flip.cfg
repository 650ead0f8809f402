SPECIFICATION Spec
CONSTANTS K = 3
 MaxLen = 1
 Unit = 2
 Loose = {"flip"}
INVARIANTS Same
CHECK_DEADLOCK FALSE
