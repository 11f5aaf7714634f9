SPECIFICATION Spec
INVARIANT InOrder OnFirst NoneLost OneState Vector
PROPERTY Ends
CHECK_DEADLOCK FALSE
