SPECIFICATION Spec
CONSTANTS KeyBytes = 4
          Doubles = 0
INVARIANTS RoundTrip Rejected
CHECK_DEADLOCK FALSE
