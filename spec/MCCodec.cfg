SPECIFICATION Spec
INVARIANTS BitsInv ValuesInv PlainInv SignInv
CHECK_DEADLOCK FALSE
