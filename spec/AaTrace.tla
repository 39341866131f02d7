------------------------------ MODULE AaTrace -------------------------------
(* Trace specification for AlignedArray: after every operation the log shows the   *)
(* contents of all arrays, read through every accessor, the element life cycle and  *)
(* the heap.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES arr, l, ty
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(b) == b = TRUE
\* value of T() by element type
DefaultOf(t) == IF t \in {"s", "t"} THEN 77 ELSE 0
INSTANCE AlignedArray WITH Ids <- 0..5
vars == <<arr, l, ty>>
Ev == Trace[l]
\* what is visible in the state after the operation
View(e) == Is(/\ \A k \in 1..Len(e.arrays) : LET a == e.arrays[k] IN
                   /\ arr'[a.i].live /\ a.n = Len(arr'[a.i].v)
                   /\ a.v = arr'[a.i].v /\ a.bad = 0            \* bad: accessors that disagree, elements not contiguous
                   /\ a.n > 0 => a.al = 0                        \* position within 64 bytes
              /\ {e.arrays[k].i : k \in 1..Len(e.arrays)} = {i \in 0..5 : arr'[i].live}
              /\ ty \in {"s", "t"} => e.alive = Elements'         \* constructed minus destroyed
              /\ e.wrong = 0                                      \* constructed twice, destroyed twice, assigned while dead
              /\ Arrays' = 0 => e.heap = 0)
Op(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == AInit /\ l \in {q \in 1..Len(Trace) : Trace[q].e = "case"} /\ ty = Trace[l].t
Begin == Op("case") /\ UNCHANGED <<arr, ty>>
Do == /\ \/ Op("new") /\ NewN(Ev.a, Ev.n, DefaultOf(ty))
         \/ Op("vec") /\ NewVec(Ev.a, Ev.x)
         \/ Op("copy") /\ Copy(Ev.a, Ev.b)
         \/ Op("assign") /\ Assign(Ev.a, Ev.b)
         \/ Op("set") /\ Set(Ev.a, Ev.k, Ev.x)
         \/ Op("del") /\ Del(Ev.a)
      /\ UNCHANGED ty
      /\ View(Ev)
\* the whole life of one array of any size (n = n[1]*65536 + n[2]), condensed: every element was T(), kept what was
\* written, and a copy and an assignment carried every element
Big == /\ Op("big") /\ UNCHANGED <<arr, ty>>
       /\ Is(/\ Ev.size = Ev.n /\ Ev.span = Ev.n /\ Ev.al = 0
             /\ Ev.def = 0 /\ Ev.keep = 0
             /\ Ev.cp = 1 => Ev.csize = Ev.n /\ Ev.copied = 0)
       /\ View(Ev)
End == l <= Len(Trace) /\ Ev.e = "end" /\ l' = Len(Trace) + 1 /\ UNCHANGED <<arr, ty>>
Finished == l = Len(Trace) + 1 /\ UNCHANGED vars
TraceNext == Begin \/ Do \/ Big \/ End \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
