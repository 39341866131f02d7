------------------------------- MODULE InPlace ------------------------------
(* Overlapping input and output blocks of the half-band filters.                   *)
(* Down: input at cells 0..2n-1, output block(s) at lo.. and hi.. (Off: no second   *)
(* output); the loop reads the pair 2p, 2p+1 and then writes lo+p, hi+p.            *)
(* Up: output at 0..2n-1, input at lo..lo+n-1; the loop reads lo+p, then writes     *)
(* 2p, 2p+1.  Permitted is what the asserts of the code permit, with output blocks  *)
(* that do not overlap each other; then every read sees the original input and      *)
(* every output survives.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NMax, Order        \* "fwd" (as coded) | "back" (mutant)
VARIABLES d, n, lo, hi, p, mem, bad
vars == <<d, n, lo, hi, p, mem, bad>>
Off == 1000
In(k) == 1000 + k
Lo(k) == 2000 + k
Hi(k) == 3000 + k
Disjoint(a, b) == a + n <= b \/ b + n <= a
Permitted(o) == o <= 0 \/ o >= 2 * n
Places == (-(NMax + 1))..0 \cup {2 * NMax, 2 * NMax + 1, 3 * NMax + 1}
Cells == (-(2 * NMax + 2))..(5 * NMax + 2)
InitDown == /\ d = "D" /\ lo \in Places /\ hi \in Places \cup {Off}
            /\ Permitted(lo) /\ (hi # Off => Permitted(hi) /\ Disjoint(lo, hi))
            /\ mem = [c \in Cells |-> IF c \in 0..(2 * n - 1) THEN In(c) ELSE 0]
InitUp == /\ d = "U" /\ hi = Off /\ lo \in {-n, -n - 1} \cup n..(2 * n + 1)
          /\ mem = [c \in Cells |-> IF c \in lo..(lo + n - 1) THEN In(c - lo) ELSE 0]
Init == n \in 1..NMax /\ p = 0 /\ bad = FALSE /\ (InitDown \/ InitUp)
Q == IF Order = "back" THEN n - 1 - p ELSE p
Put(m, a, v) == IF a < Off THEN [m EXCEPT ![a] = v] ELSE m
Down == /\ d = "D" /\ bad' = (bad \/ mem[2 * Q] # In(2 * Q) \/ mem[2 * Q + 1] # In(2 * Q + 1))
        /\ mem' = Put(Put(mem, lo + Q, Lo(Q)), IF hi = Off THEN Off ELSE hi + Q, Hi(Q))
Up == /\ d = "U" /\ bad' = (bad \/ mem[lo + Q] # In(Q))
      /\ mem' = Put(Put(mem, 2 * Q, Lo(2 * Q)), 2 * Q + 1, Lo(2 * Q + 1))
Next == \/ p < n /\ (Down \/ Up) /\ p' = p + 1 /\ UNCHANGED <<d, n, lo, hi>>
        \/ p = n /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
ReadsIntact == ~bad
OutputsIntact == p = n => IF d = "U" THEN \A k \in 0..(2 * n - 1) : mem[k] = Lo(k)
                          ELSE /\ \A k \in 0..(n - 1) : mem[lo + k] = Lo(k)
                               /\ hi # Off => \A k \in 0..(n - 1) : mem[hi + k] = Hi(k)
\* the conformance check uses every placement of the model
Plan == p = n => PrintT(<<"PLACE", d, n, lo, hi>>)
=============================================================================
