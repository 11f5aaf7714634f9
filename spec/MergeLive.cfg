SPECIFICATION Spec
INVARIANT Ordered
INVARIANT TrackerWins
INVARIANT Clocks
INVARIANT OwnOrder
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
