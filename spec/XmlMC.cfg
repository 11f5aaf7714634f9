SPECIFICATION Spec
INVARIANTS Starts Vector
PROPERTY Effects
CHECK_DEADLOCK FALSE
