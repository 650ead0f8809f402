SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Copy = TRUE
 MaxSamples = 3
INVARIANT OnePerSample
INVARIANT OnlyFit
INVARIANT InOrder
