SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MCNets = {"bitcoin", "regtest"}
  MCForms = {"private", "public"}
INVARIANTS Distinct Recovered Found Emit
PROPERTIES Same
CHECK_DEADLOCK FALSE
