SPECIFICATION Spec
CONSTANTS K = 3
 MaxLen = 0
 Unit = 2
 Loose = {"padding"}
INVARIANTS SignSound PadSound
CHECK_DEADLOCK FALSE
