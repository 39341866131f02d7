SPECIFICATION Spec
CONSTANTS
  NT = 2
  Stops = 3
  Scratch = "private"
  EmitOn = TRUE
INVARIANTS OwnData Emit
