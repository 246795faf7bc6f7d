SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Sel = 1
INVARIANTS Consistent BestChainWins NoCoinLost StoredAndStaged Apart ChainIsPath CrashSafe Emit
PROPERTY Remembers
CHECK_DEADLOCK FALSE
