SPECIFICATION Spec
INVARIANTS Enough Tight Vector
CHECK_DEADLOCK FALSE
