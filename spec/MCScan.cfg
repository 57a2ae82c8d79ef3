SPECIFICATION Spec
CONSTANT Overlays <- Small
INVARIANTS WritesCanonicalPrefix SuccessIsComplete FailureIsReported StrictlyIncreasing NothingTwice WeaklyIncreasing EveryNodeOnce
PROPERTY Terminates
CHECK_DEADLOCK FALSE
