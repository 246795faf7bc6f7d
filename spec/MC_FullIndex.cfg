SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Sel = 1
INVARIANTS GraphIsPayments PrevoutsKept OnlyEligible OnlyKnownLabels Repeatable Upper Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
