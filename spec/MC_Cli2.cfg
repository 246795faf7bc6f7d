SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Sel = 1
INVARIANTS Exact ExactMem Never Complete Branch Consistent Sums Emit
CHECK_DEADLOCK FALSE
