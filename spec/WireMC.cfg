SPECIFICATION Spec
INVARIANT RoundTrip
INVARIANT NoPrefix
INVARIANT Emit
CHECK_DEADLOCK FALSE
