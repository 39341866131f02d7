-------------------------------- MODULE Hiir --------------------------------
(* Reference semantics of the half-band filters: two branches, each a cascade of  *)
(* first order all-pass sections  y[n] = c * (x[n] - y[n-1]) + x[n-1].  Section i  *)
(* (counted from 1) belongs to branch 0 if i is odd and to branch 1 otherwise.     *)
EXTENDS Integers, Sequences
CONSTANTS Mul(_, _),      \* value * coefficient
          Add(_, _), Sub(_, _)
\* filter state: coefficients, previous input and previous output of every section
Zero(c) == [c |-> c, x |-> [i \in 1..Len(c) |-> 0], y |-> [i \in 1..Len(c) |-> 0]]
Clear(f) == Zero(f.c)
Coefs(f, c) == [f EXCEPT !.c = c]
RECURSIVE Run(_, _, _)
Run(f, i, v) == IF i > Len(f.c) THEN [f |-> f, y |-> v]
                ELSE LET w == Add(Mul(Sub(v, f.y[i]), f.c[i]), f.x[i])
                     IN Run([f EXCEPT !.x[i] = v, !.y[i] = w], i + 2, w)
\* one step: a through branch 0, b through branch 1
Both(f, a, b) == LET p == Run(f, 1, a) q == Run(p.f, 2, b) IN [f |-> q.f, a |-> p.y, b |-> q.y]
=============================================================================
