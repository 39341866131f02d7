SPECIFICATION Spec
CONSTANTS
  Num = 3
  Den = 4
  Unit = 16
  Sound = 5
  Fade = 24
  Pad = "bypass"
INVARIANT Faded
