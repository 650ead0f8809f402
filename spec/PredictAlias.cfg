SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Copy = FALSE
 MaxSamples = 3
INVARIANT OnePerSample
INVARIANT OnlyFit
INVARIANT InOrder
