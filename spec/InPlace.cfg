SPECIFICATION Spec
CONSTANTS
 NMax = 4
 Order = "fwd"
INVARIANTS ReadsIntact OutputsIntact Plan
CHECK_DEADLOCK FALSE
