SPECIFICATION Spec
INVARIANTS Same Special
