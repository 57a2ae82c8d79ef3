SPECIFICATION Spec
INVARIANTS ReadBack SameAgain Headers Footers OneLine
CHECK_DEADLOCK FALSE
