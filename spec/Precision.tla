----------------------------- MODULE Precision ------------------------------
(* Lookup of the precision for a number of bits, and names of precisions.          *)
(* Arguments are 32 bit unsigned numbers, logged as 16 bit halves.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Precisions == {1, 8, 12, 16, 20, 24}
Db(p) == p * 6
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the cheapest precision that has at least this many bits, the best one if none has
For(hi, lo) == IF hi > 0 \/ lo > 24 THEN 24 ELSE Smallest({p \in Precisions : p >= lo})
\* properties of the specified function itself
ASSUME \A b \in 0..200 : /\ For(0, b) \in Precisions
                         /\ \A q \in Precisions : q >= b => For(0, b) <= q
                         /\ b <= 24 => For(0, b) >= b
ASSUME \A a, b \in 0..200 : a <= b => For(0, a) <= For(0, b)
ASSUME \A p \in Precisions : For(0, p) = p
Is(b) == b = TRUE
Ev == Trace[l]
TraceInit == l \in {q \in 1..Len(Trace) : Trace[q].e = "case"}
Step == l' = l + 1
Begin == Ev.e = "case" /\ Step
TBits == Ev.e = "bits" /\ Is(\A k \in 1..Len(Ev.v) : Ev.v[k].p = For(Ev.v[k].hi, Ev.v[k].lo)) /\ Step
\* intervals of equal answers (For is monotonic): they cover all arguments from a to b, and the answers at both ends are right
Next16(x) == IF x[2] = 65535 THEN <<x[1] + 1, 0>> ELSE <<x[1], x[2] + 1>>
TBitsRun == /\ Ev.e = "bitsrun"
            /\ LET v == Ev.v IN
               /\ v[1].a = Ev.a /\ v[Len(v)].b = Ev.b
               /\ Is(\A k \in 1..Len(v) : v[k].p = For(v[k].a[1], v[k].a[2]) /\ v[k].p = For(v[k].b[1], v[k].b[2]))
               /\ Is(\A k \in 1..(Len(v) - 1) : v[k + 1].a = Next16(v[k].b))
            /\ Step
\* every precision found is accepted by the constructor
TNew == Ev.e = "new" /\ Ev.err = 0 /\ Ev.p \in Precisions /\ Step
\* names: distinct for precisions, all other values are called unknown
TName == /\ Ev.e = "name"
         /\ Is(\A k \in 1..Len(Ev.v) : LET n == Ev.v[k] IN
                 /\ n.unknown = (IF n.a \in Precisions THEN 0 ELSE 1)
                 /\ n.a \in Precisions \ {1} => n.nums = <<n.a, Db(n.a)>>
                 /\ n.a \in Precisions => \A q \in 1..Len(Ev.v) : (Ev.v[q].s = n.s) => Ev.v[q].a = n.a)
         /\ Step
TNameRun == /\ Ev.e = "namerun"
            /\ Ev.v[1].a \div 65536 = Ev.a[1] /\ Ev.v[1].a % 65536 = Ev.a[2]
            /\ Ev.v[Len(Ev.v)].b \div 65536 = Ev.b[1] /\ Ev.v[Len(Ev.v)].b % 65536 = Ev.b[2]
            /\ Is(\A k \in 1..(Len(Ev.v) - 1) : Ev.v[k + 1].a = Ev.v[k].b + 1)
            /\ Is(\A k \in 1..Len(Ev.v) : LET n == Ev.v[k] IN
                 IF n.unknown = 1 THEN \A p \in Precisions : p < n.a \/ p > n.b
                 ELSE n.a = n.b /\ n.a \in Precisions /\ (n.a # 1 => n.nums = <<n.a, Db(n.a)>>))
            /\ Step
End == Ev.e = "end" /\ l' = Len(Trace) + 1
TraceNext == (l <= Len(Trace) /\ (Begin \/ TBits \/ TBitsRun \/ TNameRun \/ TNew \/ TName \/ End)) \/ (l = Len(Trace) + 1 /\ UNCHANGED l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
