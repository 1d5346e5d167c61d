SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 2, 9, 60, 100, 177, 250, 251, 444, 700, 1020}
  Vertical = {0, 64, 1920, 32576}
INVARIANTS Back Fast Length Track
