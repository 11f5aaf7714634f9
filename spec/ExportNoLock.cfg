SPECIFICATION Spec
CONSTANT Locking = FALSE
INVARIANT Whole
CHECK_DEADLOCK FALSE
