SPECIFICATION Spec
CONSTANTS Changes = 2
INVARIANTS Complete Binding
CHECK_DEADLOCK FALSE
