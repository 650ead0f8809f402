CONSTANTS MaxSize = 7 MaxF = 5 MaxS = 4 MaxD = 3 Emit = TRUE
SPECIFICATION Spec
INVARIANTS ValidInside ValidMaximal SameCount SameMeets Covered
CHECK_DEADLOCK FALSE
