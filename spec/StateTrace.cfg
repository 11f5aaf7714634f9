SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Done
CONSTANT Balance <- BalanceJson
