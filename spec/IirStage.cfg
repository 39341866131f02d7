SPECIFICATION Spec
CONSTANTS
 P = 3
 NCs = {1, 2, 3, 4}
 Recoef = FALSE
 Layout = "ok"
INVARIANTS Agree Layouts
CHECK_DEADLOCK FALSE
