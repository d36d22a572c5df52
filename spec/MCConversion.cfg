SPECIFICATION Spec
CONSTANTS MaxFields = 3
INVARIANTS Lossless Faithful
CHECK_DEADLOCK FALSE
