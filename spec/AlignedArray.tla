--------------------------- MODULE AlignedArray -----------------------------
(* AlignedArray as a value: an array is a sequence, copies are values.             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids
VARIABLES arr                \* Ids -> [live, v]
Dead == [live |-> FALSE, v |-> <<>>]
AInit == arr = [i \in Ids |-> Dead]
\* d: value of T()
NewN(i, n, d) == ~arr[i].live /\ arr' = [arr EXCEPT ![i] = [live |-> TRUE, v |-> [k \in 1..n |-> d]]]
NewVec(i, v) == ~arr[i].live /\ arr' = [arr EXCEPT ![i] = [live |-> TRUE, v |-> v]]
Copy(i, j) == arr[i].live /\ ~arr[j].live /\ arr' = [arr EXCEPT ![j] = arr[i]]
Assign(i, j) == arr[i].live /\ arr[j].live /\ arr' = [arr EXCEPT ![j] = arr[i]]     \* j = i; i = j: self assignment
Set(i, k, x) == arr[i].live /\ k \in 1..Len(arr[i].v) /\ arr' = [arr EXCEPT ![i].v[k] = x]
Del(i) == arr[i].live /\ arr' = [arr EXCEPT ![i] = Dead]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Elements == Sum([i \in Ids |-> Len(arr[i].v)], Ids)        \* elements alive
Arrays == Cardinality({i \in Ids : arr[i].live})
=============================================================================
