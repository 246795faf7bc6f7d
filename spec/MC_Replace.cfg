SPECIFICATION Spec
CONSTANTS
  MaxIns = 2
  Wide = FALSE
INVARIANTS Found NotNeedless Replaced Sane Emit
CHECK_DEADLOCK FALSE
