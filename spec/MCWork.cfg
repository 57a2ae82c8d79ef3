SPECIFICATION Spec
CONSTANTS
  Overlays <- Ov
  Lines <- Ls
  Buffers = {1, 2, 8}
INVARIANTS OnceEach InProportion AllDone NoReadAhead
PROPERTY Ends
CHECK_DEADLOCK FALSE
