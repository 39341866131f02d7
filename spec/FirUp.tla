------------------------------- MODULE FirUp -------------------------------
(* Implementation-shaped model of one factor 2 FIR upsampling stage            *)
(* (Resampler2::Upsampler2): history of ORDER-1 samples, a first pass over the  *)
(* history buffer, an alignment prologue and a vector loop over the caller's    *)
(* input, scalar remainder loops, and the rebuild of the history.  One action   *)
(* per loop iteration / buffer copy.                                            *)
(*                                                                             *)
(* Samples are symbolic: the value of a memory cell is the position of the      *)
(* sample in the input stream relative to the first sample of the current call  *)
(* (-1 is the sample before the call, JUNK a cell with unspecified content).    *)
(* The state between two calls is renormalised, so the reachable states cover   *)
(* call histories of any length.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS ORDERS,     \* filter orders (all even) of the stages to check
          SSES,       \* subset of BOOLEAN: with / without the vector loop
          NMAX(_),    \* block sizes 0..NMAX(order)
          EMIT        \* print the path class of every call (used as test plan)
ASSUME \A o \in ORDERS : o % 2 = 0 /\ o >= 2
JUNK == 999999
VARIABLES ORDER, SSE,    \* constant during a behaviour
          path           \* loop iterations taken in the current call
H    == ORDER \div 2
Groups == (ORDER + 6) \div 4          \* vectors of 4 read per group of 4 outputs
VARIABLES pc, n, al, hist, i, seg, rd, done
vars == <<ORDER, SSE, path, pc, n, al, hist, i, seg, rd, done>>
NoRead == [outs |-> <<>>, mem |-> {}]
HTodo == IF n < ORDER - 1 THEN n ELSE ORDER - 1

\* memory cell access: <<region, index>>
HistCell(k) == IF k \in 0..(2 * ORDER - 1) THEN hist[k] ELSE JUNK
InCell(k)   == IF k \in 0..(n - 1) THEN k ELSE JUNK
Cell(r, k)  == IF r = "hist" THEN HistCell(k) ELSE InCell(k)

\* output k of the current pass (its window starts at cell k of region r)
Scalar(r, k, o) == [out |-> o, win |-> [j \in 0..(ORDER - 1) |-> Cell(r, k + j)], pick |-> Cell(r, k + H)]
ScalarMem(r, k) == {<<r, k + j>> : j \in 0..(ORDER - 1)}
GroupMem(r, k)  == {<<r, k + j>> : j \in 0..(4 * Groups - 1)}

Init == /\ ORDER \in ORDERS /\ SSE \in SSES /\ path = <<>>
        /\ pc = "idle" /\ n = 0 /\ al = 0 /\ i = 0 /\ seg = "hist" /\ rd = NoRead /\ done = 0
        /\ hist = [k \in 0..(2 * ORDER - 1) |-> IF k < ORDER - 1 THEN k - (ORDER - 1) ELSE JUNK]

Call(nn, a) == /\ pc = "idle"
               /\ n' = nn /\ al' = a /\ done' = 0
               /\ pc' = "copyin" /\ UNCHANGED <<hist, i, seg>> /\ rd' = NoRead

CopyIn == /\ pc = "copyin"
          /\ hist' = [k \in DOMAIN hist |-> IF k >= ORDER - 1 /\ k < ORDER - 1 + HTodo THEN k - (ORDER - 1) ELSE hist[k]]
          /\ rd' = [outs |-> <<>>, mem |-> {<<"in", k>> : k \in 0..(HTodo - 1)}]
          /\ pc' = "vec" /\ seg' = "hist" /\ i' = 0 /\ UNCHANGED <<n, al, done>>

Limit == IF seg = "hist" THEN HTodo ELSE n - HTodo         \* outputs of the current pass
Base  == IF seg = "hist" THEN 0 ELSE HTodo                  \* first output of the current pass

\* prologue: scalar until the input pointer is 16-byte aligned (input pass only)
Prologue == /\ pc = "prologue" /\ SSE /\ (al + i) % 4 # 0 /\ i < Limit
            /\ rd' = [outs |-> <<Scalar(seg, i, Base + i)>>, mem |-> ScalarMem(seg, i)]
            /\ i' = i + 1 /\ done' = done + 1 /\ UNCHANGED <<pc, n, al, hist, seg>>
PrologueEnd == /\ pc = "prologue" /\ ~(SSE /\ (al + i) % 4 # 0 /\ i < Limit)
               /\ pc' = "vec" /\ rd' = NoRead /\ UNCHANGED <<n, al, hist, i, seg, done>>
\* vector loop: while (i + 6 < limit)
Vec == /\ pc = "vec" /\ SSE /\ i + 6 < Limit
       /\ rd' = [outs |-> [q \in 1..4 |-> Scalar(seg, i + q - 1, Base + i + q - 1)], mem |-> GroupMem(seg, i)]
       /\ i' = i + 4 /\ done' = done + 4 /\ UNCHANGED <<pc, n, al, hist, seg>>
VecEnd == /\ pc = "vec" /\ ~(SSE /\ i + 6 < Limit)
          /\ pc' = "rest" /\ rd' = NoRead /\ UNCHANGED <<n, al, hist, i, seg, done>>
Rest == /\ pc = "rest" /\ i < Limit
        /\ rd' = [outs |-> <<Scalar(seg, i, Base + i)>>, mem |-> ScalarMem(seg, i)]
        /\ i' = i + 1 /\ done' = done + 1 /\ UNCHANGED <<pc, n, al, hist, seg>>
RestEnd == /\ pc = "rest" /\ i >= Limit
           /\ rd' = NoRead
           /\ IF seg = "hist" /\ n > HTodo
              THEN pc' = "prologue" /\ seg' = "in" /\ i' = 0
              ELSE pc' = "rebuild" /\ seg' = seg /\ i' = i
           /\ UNCHANGED <<n, al, hist, done>>
\* new history from the input, or shifted from the old one; renormalise to the next call
Rebuild == /\ pc = "rebuild" /\ done = n
           /\ LET src == [k \in 0..(ORDER - 2) |-> IF n > HTodo THEN InCell(n - HTodo + k) ELSE HistCell(n + k)]
              IN hist' = [k \in DOMAIN hist |-> IF k < ORDER - 1 THEN IF src[k] = JUNK THEN JUNK ELSE src[k] - n ELSE JUNK]
           /\ rd' = NoRead /\ pc' = "idle" /\ n' = 0 /\ al' = 0 /\ i' = 0 /\ seg' = "hist" /\ done' = 0

\* path classes: runs of equal loop steps are counted up to 2, the scalar rest exactly
Mark(x) == /\ path' = Append(path, x) /\ UNCHANGED <<ORDER, SSE>>
Keep == UNCHANGED <<path, ORDER, SSE>>
Count(x) == Cardinality({q \in DOMAIN path : path[q] = x})
Cap(k, c) == IF k > c THEN c ELSE k
Class == <<Cap(Count("vh"), 2), Count("rh"), Count("pi"), Cap(Count("vi"), 2), Count("ri"), IF n > HTodo THEN 1 ELSE 0, IF n = 0 THEN 1 ELSE 0>>
Emit == EMIT => PrintT(<<"PLAN", "U", ORDER, SSE, n, al, Class>>)
Work == \/ CopyIn /\ Keep
        \/ Prologue /\ Mark("pi")
        \/ PrologueEnd /\ Keep
        \/ Vec /\ Mark(IF seg = "hist" THEN "vh" ELSE "vi")
        \/ VecEnd /\ Keep
        \/ Rest /\ Mark(IF seg = "hist" THEN "rh" ELSE "ri")
        \/ RestEnd /\ Keep
        \/ Rebuild /\ Emit /\ path' = <<>> /\ UNCHANGED <<ORDER, SSE>>
Next == (\E nn \in 0..NMAX(ORDER), a \in 0..3 : Call(nn, a) /\ Keep) \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

-----------------------------------------------------------------------------
\* every output pair is computed from exactly the last ORDER samples of the stream
WindowsOK == \A q \in 1..Len(rd.outs) :
                 LET e == rd.outs[q] IN
                 /\ \A j \in 0..(ORDER - 1) : e.win[j] = e.out - (ORDER - 1) + j
                 /\ e.pick = e.out - (ORDER - 1) + H
\* outputs are produced in order, without gaps, inside the output block
InOrder == \A q \in 1..Len(rd.outs) : rd.outs[q].out = done - Len(rd.outs) + q - 1 /\ rd.outs[q].out \in 0..(n - 1)
\* no access outside the history buffer or the caller's input block
MemOK == \A c \in rd.mem : IF c[1] = "in" THEN c[2] \in 0..(n - 1) ELSE c[2] \in 0..(2 * ORDER - 1)
\* between calls the history is exactly the last ORDER-1 samples: the state is a function of the stream
HistOK == pc = "idle" => \A k \in 0..(ORDER - 2) : hist[k] = k - (ORDER - 1)
\* vector loads are aligned
AlignOK == (pc = "vec" /\ seg = "in" /\ SSE /\ i < Limit) => (al + i) % 4 = 0
Terminates == [](pc = "copyin" => <>(pc = "idle"))
=============================================================================
