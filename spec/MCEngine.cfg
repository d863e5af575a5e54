SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS ReaderInv WriterInv StackInv TruncationInv FaultInv SuffixInv RoundTripInv SizeInv
