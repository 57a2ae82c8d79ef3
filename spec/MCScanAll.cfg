SPECIFICATION Spec
CONSTANT Overlays <- AllOverlays
INVARIANTS WritesCanonicalPrefix SuccessIsComplete FailureIsReported StrictlyIncreasing NothingTwice WeaklyIncreasing EveryNodeOnce
CHECK_DEADLOCK FALSE
