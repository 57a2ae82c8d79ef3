SPECIFICATION Spec
CONSTANTS
  Names = {1, 2}
  Changes = 3
  Follow = FALSE
INVARIANTS Canonical Real RealDirs Inside InsideDirs Counted Quiet
CHECK_DEADLOCK FALSE
