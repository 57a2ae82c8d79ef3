SPECIFICATION Spec
INVARIANTS SameResults SamePlace NeverTwice SeekFinds NextIsNext ErrorsSeen
CHECK_DEADLOCK FALSE
