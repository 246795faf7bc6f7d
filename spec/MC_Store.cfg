SPECIFICATION Spec
CONSTANTS
  Depth = 5
INVARIANTS Kept Honest Complete Reading Answered Emit
CHECK_DEADLOCK FALSE
