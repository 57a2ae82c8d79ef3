SPECIFICATION Spec
CONSTANTS
  Overlays <- Ov
  MaxLimit = 2
  MaxWorkers = 2
INVARIANTS NothingLeft DescriptorsBounded EntriesBounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
