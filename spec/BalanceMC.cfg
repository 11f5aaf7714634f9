SPECIFICATION Spec
INVARIANTS Found Vector
PROPERTY Ends
CHECK_DEADLOCK FALSE
