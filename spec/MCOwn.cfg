SPECIFICATION Spec
INVARIANTS NoFault SlotsLive Ends HeldInv
CHECK_DEADLOCK FALSE
