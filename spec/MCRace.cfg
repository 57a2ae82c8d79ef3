SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Changes = 2
  Follow = FALSE
INVARIANTS Canonical Real RealDirs Inside InsideDirs Counted Quiet
PROPERTY Ends
CHECK_DEADLOCK FALSE
