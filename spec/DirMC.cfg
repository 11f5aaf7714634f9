SPECIFICATION Spec
INVARIANT Within
INVARIANT Result
INVARIANT Vector
PROPERTY Ends
CHECK_DEADLOCK FALSE
