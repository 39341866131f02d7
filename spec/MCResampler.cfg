SPECIFICATION Spec
CONSTANTS Mutant = "none"
          Objs = {1, 2}
          Forget <- [Resampler]SmallForget
INVARIANTS HeapExact Remembers
PROPERTY Frame
CHECK_DEADLOCK TRUE
