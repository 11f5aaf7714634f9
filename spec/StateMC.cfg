SPECIFICATION Spec
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
CONSTANT Balance <- MCBalance
INVARIANTS Registry Radius GroupShape Marked Commanded NameBound
PROPERTIES Forgotten HintTrue Frame
