SPECIFICATION MCSpec
CONSTANT Acceptable <- MCAcceptable
INVARIANTS KernelAsAsked NothingUnsupported SuccessMeansDone MalformedRunsNothing Ends
CHECK_DEADLOCK FALSE
