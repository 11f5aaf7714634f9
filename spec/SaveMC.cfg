SPECIFICATION Spec
INVARIANTS SameItems SameIterator Vector
CHECK_DEADLOCK FALSE
