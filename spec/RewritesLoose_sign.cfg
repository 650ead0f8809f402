SPECIFICATION Spec
CONSTANTS K = 3
 MaxLen = 0
 Unit = 2
 Loose = {"sign"}
INVARIANTS SignSound PadSound
CHECK_DEADLOCK FALSE
