SPECIFICATION Spec
CONSTANTS
  NBlocks = 3
  NEvents = 4
  Limit = 1
  Inflight = 2
INVARIANTS Complete SyncedLast ExactlyThese FoldAgrees HeldOnce
CHECK_DEADLOCK FALSE
