SPECIFICATION Spec
CONSTANT Queue = 1
INVARIANTS True End Index
PROPERTIES Ends
CHECK_DEADLOCK FALSE
