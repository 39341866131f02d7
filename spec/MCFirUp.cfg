CONSTANTS ORDERS = {2, 4, 6, 8, 10, 12, 14, 16, 24, 32, 42, 52}
SSES = {TRUE, FALSE}
NMAX <- NMaxQuick
EMIT = TRUE
SPECIFICATION Spec
INVARIANTS WindowsOK InOrder MemOK HistOK AlignOK
PROPERTY Refines
CHECK_DEADLOCK TRUE
