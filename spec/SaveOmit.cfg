SPECIFICATION Spec
INVARIANTS SameItems
CHECK_DEADLOCK FALSE
