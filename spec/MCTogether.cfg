SPECIFICATION Spec
INVARIANTS AsAlone Untouched
PROPERTIES Refines
CHECK_DEADLOCK FALSE
