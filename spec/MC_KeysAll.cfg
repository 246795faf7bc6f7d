SPECIFICATION Spec
CONSTANTS
  Depth = 5
  MCNets = {"bitcoin", "regtest"}
  MCForms = {"private", "public", "wild"}
INVARIANTS Distinct Recovered Found
PROPERTIES Same
VIEW State
CHECK_DEADLOCK FALSE
