SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANTS EncOfParse ParseOfEnc Maximal
PROPERTY Monotone
CHECK_DEADLOCK FALSE
