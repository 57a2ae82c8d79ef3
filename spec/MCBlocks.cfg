SPECIFICATION Spec
INVARIANTS HashesRight VerdictRight Faithful
PROPERTY Terminates
CHECK_DEADLOCK FALSE
