SPECIFICATION MSpec
CONSTANT Pieces <- MCPieces
INVARIANTS SuccessIsWhole WholeIsSuccess FailureIsTold NoMessageOtherwise PrefixOnly SummaryWhenAsked Fails Sound
PROPERTY Ends
CHECK_DEADLOCK FALSE
