SPECIFICATION Spec
CONSTANTS MaxIns = 2
          MaxOuts = 2
          MaxRecips = 2
INVARIANTS Atomic Decides Found Untouched
CHECK_DEADLOCK FALSE
