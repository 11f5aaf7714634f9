SPECIFICATION Spec
INVARIANTS Within Nearest BackAndForth Corner Shift Vector
PROPERTY Monotone
CHECK_DEADLOCK FALSE
