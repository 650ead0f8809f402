SPECIFICATION Spec
CONSTANTS K = 3
 MaxLen = 1
 Unit = 2
 Loose = {"mulbias"}
INVARIANTS Same
CHECK_DEADLOCK FALSE
