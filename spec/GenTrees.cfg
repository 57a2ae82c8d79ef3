SPECIFICATION GenSpec
CONSTANT Overlays <- Small
CHECK_DEADLOCK FALSE
