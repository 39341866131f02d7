SPECIFICATION Spec
CONSTANTS
  Ratios = {1, 2, 4, 8}
  DU = 3
  DD = 2
  NMax = 14
  Blocks = {0, 1, 2, 3, 5, 7}
INVARIANT Aligned
CHECK_DEADLOCK FALSE
