SPECIFICATION Spec
INVARIANTS AsDeclared ScansChangeNothing Exchange
CHECK_DEADLOCK FALSE
