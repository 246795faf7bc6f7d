SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Sel = 1
INVARIANTS Rebuilds GraphHoldsPayments AnchoredInGraph CoinbaseNeverIndexed Contiguous GraphIsRelevant Repeatable LabelsOnlyAdd Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
