------------------------------ MODULE LtiTrace ------------------------------
(* Trace specification: the response of every object is the superposition of the  *)
(* responses to single samples.  GOLD holds, per configuration and phase q (the    *)
(* stream with a single 1 at input q), the measured kernel; TLC evaluates the      *)
(* superposition for every stream and position.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
SE == INSTANCE SequencesExt
VARIABLES obj, heap, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Gold  == ndJsonDeserialize(IOEnv.GOLD)
Par   == ndJsonDeserialize(IOEnv.PARAMS)[1]
Key(c, q) == <<c.m, c.r, c.p, c.s, c.f, q>>
KernelIx == [k \in {Key(Gold[g], Gold[g].sid) : g \in 1..Len(Gold)} |-> CHOOSE g \in 1..Len(Gold) : Key(Gold[g], Gold[g].sid) = k]
Kernel(c, q) == Gold[KernelIx[Key(c, q)]].y
StreamIx == [s \in {Par.streams[q].sid : q \in 1..Len(Par.streams)} |-> CHOOSE q \in 1..Len(Par.streams) : Par.streams[q].sid = s]
StreamOf(sid) == Par.streams[StreamIx[sid]]
Min2(a, b) == IF a < b THEN a ELSE b
Compact(s, j) == (j \div s.mod) * s.win + Min2(j % s.mod, s.win)
UptoOf(sid, j) == Compact(StreamOf(sid), j)
PosOf(s, i) == ((i - 1) \div s.win) * s.mod + ((i - 1) % s.win)      \* stream position of the i-th logged output
\* contribution of input sample k (value 1) to output j
At(h, i) == IF i < 0 \/ i >= Len(h) THEN 0 ELSE h[i + 1]
Share(c, k, j) == IF c.m = "U" THEN At(Kernel(c, 0), j - c.r * k) ELSE At(Kernel(c, k % c.r), j - k \div c.r)
Superpose(c, imp, j) == SE!FoldLeft(LAMBDA a, e : a + e[2] * Share(c, e[1], j), 0, imp)
RespOf(c, sid) == LET s == StreamOf(sid) IN [i \in 1..1000000 |-> Superpose(c, s.imp, PosOf(s, i))]
Abs(a) == IF a < 0 THEN -a ELSE a
CloseTo(sid, a, b) == LET tol == StreamOf(sid).tol IN /\ Abs(a) < 2000000000 /\ Abs(b) < 2000000000
                                                      /\ IF (a < 0) # (b < 0) THEN Abs(a) + Abs(b) <= tol ELSE Abs(a - b) <= tol
DeterminedOf(sid) == StreamOf(sid).fin = 1
INSTANCE Resampler WITH Objects <- 0..7, Resp <- RespOf, Upto <- UptoOf, Close <- CloseTo, Slack <- LAMBDA c, s : <<>>, Determined <- DeterminedOf, Aspects <- {"out"}
vars == <<obj, heap, l>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == RInit /\ l \in {q \in 1..Len(Trace) : Trace[q].e = "case"}
Begin == IsEvent("case") /\ UNCHANGED <<obj, heap>>
TNew == IsEvent("new") /\ New(Ev.o, [m |-> Ev.m, r |-> Ev.r, p |-> Ev.p, s |-> Ev.s, f |-> Ev.f], Ev)
TProcess == IsEvent("p") /\ Process(Ev.o, Ev.sid, Ev.off, Ev.n, Ev)
TReset == IsEvent("r") /\ Reset(Ev.o, Ev)
End == l <= Len(Trace) /\ Ev.e = "end" /\ l' = Len(Trace) + 1 /\ UNCHANGED <<obj, heap>>
Finished == l = Len(Trace) + 1 /\ UNCHANGED vars
TraceNext == Begin \/ TNew \/ TProcess \/ TReset \/ End \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
