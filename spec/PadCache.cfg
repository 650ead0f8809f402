CONSTANTS MaxSize = 4 MaxF = 3 MaxS = 3 MaxD = 2 OppositeSides = TRUE
SPECIFICATION Spec
INVARIANTS ExactlyOnce CacheBounds SkipOK
CHECK_DEADLOCK FALSE
