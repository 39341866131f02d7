------------------------------ MODULE LinTrace ------------------------------
(* PREC_LINEAR as an exact function of the input: piecewise linear interpolation    *)
(* upwards, a triangular window downwards.  Streams are integers (in PARAMS), the   *)
(* outputs are compared for equality in fixed point, scaled by 2^(26+shift).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
SE == INSTANCE SequencesExt
VARIABLES obj, heap, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Par   == ndJsonDeserialize(IOEnv.PARAMS)[1]
StreamIx == [s \in {Par.streams[q].sid : q \in 1..Len(Par.streams)} |-> CHOOSE q \in 1..Len(Par.streams) : Par.streams[q].sid = s]
StreamOf(sid) == Par.streams[StreamIx[sid]]
Min2(a, b) == IF a < b THEN a ELSE b
\* sparsely logged streams: position j is logged iff j % mod < win
UptoOf(sid, j) == LET s == StreamOf(sid) IN (j \div s.mod) * s.win + Min2(j % s.mod, s.win)
At(s, i) == ((i - 1) \div s.win) * s.mod + ((i - 1) % s.win)          \* position of the i-th logged output
\* a stream may repeat itself
In(s, k) == IF k < 0 THEN 0 ELSE s.x[(k % Len(s.x)) + 1]
\* s.unit: what the integer 1 of the input is in the fixed point of the output
Up(s, r, j) == LET k == j \div r  q == j % r
               IN In(s, k - 1) * s.unit + (In(s, k) - In(s, k - 1)) * (q + 1) * (s.unit \div r)
\* window of 2r - 1 samples, the newest one is input r*j
Down(s, r, j) == SE!FoldLeft(LAMBDA a, i : a + In(s, r * j - i) * (IF i < r THEN i + 1 ELSE 2 * r - 1 - i), 0,
                             [q \in 1..(2 * r - 1) |-> q - 1]) * (s.unit \div (r * r))
RespOf(c, sid) == LET s == StreamOf(sid) IN [i \in 1..1000000 |-> IF c.m = "U" THEN Up(s, c.r, At(s, i)) ELSE Down(s, c.r, At(s, i))]
CloseTo(sid, a, b) == a = b
DeterminedOf(sid) == StreamOf(sid).fin = 1
INSTANCE Resampler WITH Objects <- 0..7, Resp <- RespOf, Upto <- UptoOf, Close <- CloseTo, Slack <- LAMBDA c, s : <<>>, Determined <- DeterminedOf, Aspects <- {"out"}
vars == <<obj, heap, l>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == RInit /\ l \in {q \in 1..Len(Trace) : Trace[q].e = "case"}
Begin == IsEvent("case") /\ UNCHANGED <<obj, heap>>
TNew == IsEvent("new") /\ New(Ev.o, [m |-> Ev.m, r |-> Ev.r, p |-> Ev.p, s |-> Ev.s, f |-> Ev.f], Ev)
TProcess == IsEvent("p") /\ Process(Ev.o, Ev.sid, Ev.off, Ev.n, Ev)
TReset == IsEvent("r") /\ Reset(Ev.o, Ev)
\* condensed observations of many calls: any difference from the exact outputs counts
TSoak == IsEvent("soak") /\ Soak(Ev.o, Ev.sid, Ev.off, Ev.n, StreamOf(Ev.sid).per, Ev)
TSweep == IsEvent("sweep") /\ Sweep(Ev.o, Ev.sid, Ev.n, Ev @@ [w |-> OutCount(obj[Ev.o].cfg, Ev.n), nn |-> 0])
TGiant == IsEvent("giant") /\ Giant(Ev.o, Ev.sid, Ev.lo, Ev.per, Ev.k, Ev)
End == l <= Len(Trace) /\ Ev.e = "end" /\ l' = Len(Trace) + 1 /\ UNCHANGED <<obj, heap>>
Finished == l = Len(Trace) + 1 /\ UNCHANGED vars
TraceNext == Begin \/ TNew \/ TProcess \/ TSoak \/ TSweep \/ TGiant \/ TReset \/ End \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
