SPECIFICATION Spec
INVARIANTS RoundTrip Ascii Canonical Fast AsName AsTarget AsDir
CHECK_DEADLOCK FALSE
