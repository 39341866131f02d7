SPECIFICATION Spec
CONSTANTS
 M = 5
 V = 7
 MaxIt = 8
 Mutant = "none"
INVARIANTS Sound Bracket Justified
PROPERTY Terminates
CHECK_DEADLOCK FALSE
