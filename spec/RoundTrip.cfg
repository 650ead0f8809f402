CONSTANT MaxC = 4
SPECIFICATION Spec
INVARIANTS PackOK PackUnique DecodeOK RoundTrip SignFn
CHECK_DEADLOCK FALSE
