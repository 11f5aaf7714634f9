SPECIFICATION Spec
INVARIANT Progress
CHECK_DEADLOCK FALSE
POSTCONDITION Finished
