SPECIFICATION Spec
INVARIANT Sound
PROPERTY Decided
CHECK_DEADLOCK FALSE
