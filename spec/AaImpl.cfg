SPECIFICATION Spec
CONSTANTS
  Ids = {0, 1, 2}
  Blocks = {0, 1, 2, 3}
  NMax = 2
  Values = {0, 1}
  Default = 0
  CopyMode = "deep"
INVARIANTS NoSharing NoUseAfterFree NoLeak OnceOnly
PROPERTY Refines
CHECK_DEADLOCK FALSE
