SPECIFICATION Spec
VIEW View
INVARIANTS StateInv PrefixInv CountInv
CHECK_DEADLOCK FALSE
