SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Sel = 1
INVARIANTS Exact Never Complete Consistent Sums IsPath Emit
CHECK_DEADLOCK FALSE
