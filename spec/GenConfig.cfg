SPECIFICATION Spec
INVARIANTS Printed
CHECK_DEADLOCK FALSE
