SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxOps = 2
 MaxIn = 1
 Codes = {"QUANTIZE", "DEQUANTIZE", "custom:LceDequantize", "OP"}
INVARIANT Preserved
INVARIANT Signatures
INVARIANT Defined
INVARIANT Confluent
