SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Back Methods Range Inverse Illegal
PROPERTY OnePulse
