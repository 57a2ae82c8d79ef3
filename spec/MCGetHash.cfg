SPECIFICATION Spec
INVARIANTS LastLineIsFooter CompleteIsRead NoPrefixIsRead FailureIsReported Fit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
