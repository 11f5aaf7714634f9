SPECIFICATION Spec
INVARIANT Ordered
INVARIANT TrackerWins
INVARIANT Clocks
INVARIANT OwnOrder
INVARIANT Complete
INVARIANT Vector
CHECK_DEADLOCK FALSE
