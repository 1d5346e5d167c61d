SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Bodies <- SomeBodies
INVARIANTS VersionKnown Routing Refusals NIC Supplements Monotone Versions_
