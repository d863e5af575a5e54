SPECIFICATION Spec
VIEW View
INVARIANTS StateInv ConcatInv FinalInv
CHECK_DEADLOCK FALSE
