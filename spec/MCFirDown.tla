---- MODULE MCFirDown ----
EXTENDS FirDown
NMaxQuick(o) == 2 * o + 16
NMaxDeep(o) == 4 * o + 40
\* refinement: the control and the extent of the history are those of the symbolic model proven for all sizes
ValidCells(h) == IF \E k \in DOMAIN h : h[k] = JUNK THEN CHOOSE k \in DOMAIN h : h[k] = JUNK /\ \A j \in 0..(k - 1) : h[j] # JUNK ELSE 2 * ORDER
IndE == INSTANCE FirDownInd WITH bs <- BS, hv <- ValidCells(he), ho <- -he[0]
IndO == INSTANCE FirDownInd WITH bs <- BS, hv <- ValidCells(ho), ho <- -ho[0]
Refines == IndE!Spec /\ IndO!Spec
====
