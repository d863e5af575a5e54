SPECIFICATION Spec
INVARIANT PosInv
PROPERTY Monotone
CHECK_DEADLOCK FALSE
