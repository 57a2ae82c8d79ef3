SPECIFICATION Spec
INVARIANTS AcceptedIsPrefix SuccessIsWhole DigestOfAccepted FailureIsNotWhole
CHECK_DEADLOCK FALSE
