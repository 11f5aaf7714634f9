SPECIFICATION Spec
CONSTANT Locking = TRUE
INVARIANT Whole
INVARIANT Once
INVARIANT Nothing
INVARIANT Complete
INVARIANT InOrder
INVARIANT Exclusive
INVARIANT Vector
PROPERTY Ends
CHECK_DEADLOCK FALSE
