SPECIFICATION Spec
CONSTANTS
  Chunk = 1024
  Cap = 4096
  NMax = 2600
INVARIANTS InBounds NoOddStage NothingLost Complete
PROPERTIES Finishes Refines
