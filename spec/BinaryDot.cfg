CONSTANTS MaxN = 7 MaxK = 12 MaxMul = 2 MaxBias = 6
SPECIFICATION Spec
INVARIANTS DotInv OutInv ThrInv
CHECK_DEADLOCK FALSE
