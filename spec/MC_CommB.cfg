SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exclusive Complete Coherent Once Ordered Empties
