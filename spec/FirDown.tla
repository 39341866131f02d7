------------------------------ MODULE FirDown ------------------------------
(* Implementation-shaped model of one factor 2 FIR downsampling stage          *)
(* (Resampler2::Downsampler2): the input block is cut into chunks of BS output  *)
(* samples; per chunk the even samples are copied to an aligned scratch block,  *)
(* the odd ones are addressed with a stride of 2 in the caller's input; both    *)
(* polyphase branches have a history of ORDER-1 samples.                        *)
(* Cells hold stream positions of the even (odd) polyphase component relative   *)
(* to the start of the current chunk, JUNK is unspecified content.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS ORDERS, SSES,
          BS,         \* scratch block size (outputs per chunk; 1024 in the code)
          NMAX(_),    \* output counts 0..NMAX(order) per call
          EMIT        \* print the path class of every call (used as test plan)
ASSUME \A o \in ORDERS : o % 2 = 0 /\ o >= 2 /\ BS >= o
JUNK == 999999
VARIABLES ORDER, SSE,    \* constant during a behaviour
          path           \* loop iterations taken in the current call
HD   == (ORDER \div 2) - 1
Groups == (ORDER + 6) \div 4
VARIABLES pc, left, m, he, ho, blk, i, seg, rd, done, pos, tot
  \* left: outputs not yet taken into a chunk, m: outputs of this chunk, pos: outputs before this chunk, tot: outputs of the call
vars == <<ORDER, SSE, path, pc, left, m, he, ho, blk, i, seg, rd, done, pos, tot>>
NoRead == [outs |-> <<>>, mem |-> {}]
Min2(a, b) == IF a < b THEN a ELSE b
HTodo == Min2(m, ORDER - 1)

He(k) == IF k \in 0..(2 * ORDER - 1) THEN he[k] ELSE JUNK
Ho(k) == IF k \in 0..(2 * ORDER - 1) THEN ho[k] ELSE JUNK
Blk(k) == IF k \in 0..(BS - 1) /\ k < blk THEN k ELSE JUNK      \* scratch holds even samples 0..blk-1 of this chunk
InOdd(k) == IF k \in 0..(m - 1) THEN k ELSE JUNK                \* input_odd[2 k]
Ev(r, k) == IF r = "hist" THEN He(k) ELSE Blk(k)
Od(r, k) == IF r = "hist" THEN Ho(k) ELSE InOdd(k)
\* memory touched: even window and one odd cell; caller input is addressed in samples of the whole call
EvMem(r, k, len) == {<<IF r = "hist" THEN "he" ELSE "blk", k + j>> : j \in 0..(len - 1)}
OdMem(r, k) == {IF r = "hist" THEN <<"ho", k + HD>> ELSE <<"in", 2 * (pos + k + HD) + 1>>}
Scalar(r, k, o) == [out |-> o, win |-> [j \in 0..(ORDER - 1) |-> Ev(r, k + j)], pick |-> Od(r, k + HD)]

Z(k) == IF k < ORDER - 1 THEN k - (ORDER - 1) ELSE JUNK
Init == /\ ORDER \in ORDERS /\ SSE \in SSES /\ path = <<>>
        /\ pc = "idle" /\ left = 0 /\ m = 0 /\ i = 0 /\ seg = "hist" /\ rd = NoRead /\ done = 0 /\ pos = 0 /\ tot = 0 /\ blk = 0
        /\ he = [k \in 0..(2 * ORDER - 1) |-> Z(k)] /\ ho = [k \in 0..(2 * ORDER - 1) |-> Z(k)]
Call(nn) == /\ pc = "idle" /\ left' = nn /\ tot' = nn /\ pos' = 0 /\ pc' = "chunk" /\ rd' = NoRead
            /\ UNCHANGED <<m, he, ho, blk, i, seg, done>>
\* deinterleave: even samples to the scratch block
Chunk == /\ pc = "chunk" /\ left > 0
         /\ m' = Min2(left, BS) /\ left' = left - m' /\ blk' = m'
         /\ rd' = [outs |-> <<>>, mem |-> {<<"in", 2 * (pos + k)>> : k \in 0..(m' - 1)} \cup {<<"blk", k>> : k \in 0..(m' - 1)}]
         /\ pc' = "copyin" /\ done' = 0 /\ i' = 0 /\ seg' = "hist" /\ UNCHANGED <<he, ho, pos, tot>>
Return == /\ pc = "chunk" /\ left = 0 /\ pos = tot
          /\ pc' = "idle" /\ rd' = NoRead /\ m' = 0 /\ blk' = 0 /\ i' = 0 /\ seg' = "hist" /\ done' = 0 /\ pos' = 0 /\ tot' = 0
          /\ UNCHANGED <<left, he, ho>>
Put(h, k) == IF k >= ORDER - 1 /\ k < ORDER - 1 + HTodo THEN k - (ORDER - 1) ELSE h[k]
CopyIn == /\ pc = "copyin"
          /\ he' = [k \in DOMAIN he |-> Put(he, k)] /\ ho' = [k \in DOMAIN ho |-> Put(ho, k)]
          /\ rd' = [outs |-> <<>>, mem |-> {<<"blk", k>> : k \in 0..(HTodo - 1)} \cup {<<"in", 2 * (pos + k) + 1>> : k \in 0..(HTodo - 1)}]
          /\ pc' = "vec" /\ UNCHANGED <<left, m, blk, i, seg, done, pos, tot>>
Limit == IF seg = "hist" THEN HTodo ELSE m - HTodo
Base  == IF seg = "hist" THEN 0 ELSE HTodo
Vec == /\ pc = "vec" /\ SSE /\ i + 6 < Limit
       /\ rd' = [outs |-> [q \in 1..4 |-> Scalar(seg, i + q - 1, Base + i + q - 1)],
                 mem |-> EvMem(seg, i, 4 * Groups) \cup UNION {OdMem(seg, i + q) : q \in 0..3}]
       /\ i' = i + 4 /\ done' = done + 4 /\ UNCHANGED <<pc, left, m, he, ho, blk, seg, pos, tot>>
VecEnd == /\ pc = "vec" /\ ~(SSE /\ i + 6 < Limit) /\ pc' = "rest" /\ rd' = NoRead
          /\ UNCHANGED <<left, m, he, ho, blk, i, seg, done, pos, tot>>
Rest == /\ pc = "rest" /\ i < Limit
        /\ rd' = [outs |-> <<Scalar(seg, i, Base + i)>>, mem |-> EvMem(seg, i, ORDER) \cup OdMem(seg, i)]
        /\ i' = i + 1 /\ done' = done + 1 /\ UNCHANGED <<pc, left, m, he, ho, blk, seg, pos, tot>>
RestEnd == /\ pc = "rest" /\ i >= Limit /\ rd' = NoRead
           /\ IF seg = "hist" /\ m > HTodo THEN pc' = "vec" /\ seg' = "in" /\ i' = 0
              ELSE pc' = "rebuild" /\ UNCHANGED <<seg, i>>
           /\ UNCHANGED <<left, m, he, ho, blk, done, pos, tot>>
Rebuild == /\ pc = "rebuild" /\ done = m
           /\ LET re(k) == IF m > HTodo THEN Blk(m - HTodo + k) ELSE He(m + k)
                  ro(k) == IF m > HTodo THEN InOdd(m - HTodo + k) ELSE Ho(m + k)
                  nz(x) == IF x = JUNK THEN JUNK ELSE x - m
              IN /\ he' = [k \in DOMAIN he |-> IF k < ORDER - 1 THEN nz(re(k)) ELSE JUNK]
                 /\ ho' = [k \in DOMAIN ho |-> IF k < ORDER - 1 THEN nz(ro(k)) ELSE JUNK]
           /\ rd' = [outs |-> <<>>, mem |-> IF m > HTodo THEN {<<"in", 2 * (pos + m - HTodo + k) + 1>> : k \in 0..(HTodo - 1)} ELSE {}]
           /\ pc' = "chunk" /\ pos' = pos + m /\ UNCHANGED <<left, m, blk, i, seg, done, tot>>
\* path classes (chunk borders "c" separate the chunks of a call)
Mark(x) == /\ path' = Append(path, x) /\ UNCHANGED <<ORDER, SSE>>
Keep == UNCHANGED <<path, ORDER, SSE>>
Count(x) == Cardinality({q \in DOMAIN path : path[q] = x})
Cap(k, c) == IF k > c THEN c ELSE k
Class == <<Cap(Count("c"), 3), Cap(Count("vh"), 2), Cap(Count("rh"), 7), Cap(Count("vi"), 2), Cap(Count("ri"), 12), Cap(tot, 1)>>
Emit == EMIT => PrintT(<<"PLAN", "D", ORDER, SSE, tot, 0, Class>>)
Step == \/ Chunk /\ Mark("c")
        \/ CopyIn /\ Keep
        \/ Vec /\ Mark(IF seg = "hist" THEN "vh" ELSE "vi")
        \/ VecEnd /\ Keep
        \/ Rest /\ Mark(IF seg = "hist" THEN "rh" ELSE "ri")
        \/ RestEnd /\ Keep
        \/ Rebuild /\ Keep
        \/ Return /\ Emit /\ path' = <<>> /\ UNCHANGED <<ORDER, SSE>>
Next == (\E nn \in 0..NMAX(ORDER) : Call(nn) /\ Keep) \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
-----------------------------------------------------------------------------
WindowsOK == \A q \in 1..Len(rd.outs) :
                 LET e == rd.outs[q] IN
                 /\ \A j \in 0..(ORDER - 1) : e.win[j] = e.out - (ORDER - 1) + j
                 /\ e.pick = e.out - (ORDER - 1) + HD
InOrder == \A q \in 1..Len(rd.outs) : rd.outs[q].out = done - Len(rd.outs) + q - 1 /\ rd.outs[q].out \in 0..(m - 1)
MemOK == \A c \in rd.mem : CASE c[1] = "in" -> c[2] \in 0..(2 * tot - 1)
                             [] c[1] = "blk" -> c[2] \in 0..(BS - 1)
                             [] OTHER -> c[2] \in 0..(2 * ORDER - 1)
HistOK == pc \in {"idle", "chunk"} => \A k \in 0..(ORDER - 2) : he[k] = k - (ORDER - 1) /\ ho[k] = k - (ORDER - 1)
AlignOK == (pc = "vec" /\ SSE) => i % 4 = 0
Terminates == [](pc = "chunk" => <>(pc = "idle"))
=============================================================================
