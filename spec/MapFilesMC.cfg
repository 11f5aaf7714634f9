SPECIFICATION Spec
INVARIANTS Reads Vector
CHECK_DEADLOCK FALSE
