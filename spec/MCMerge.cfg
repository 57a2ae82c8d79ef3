SPECIFICATION Spec
INVARIANTS AsPromised OneKey Increasing InOrder AllInTheEnd
CHECK_DEADLOCK FALSE
