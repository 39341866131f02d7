----------------------------- MODULE CopyTrace ------------------------------
(* FIR upsampling copies the input samples bit by bit to the output positions that   *)
(* delay() announces; ratio 1 is the identity.  Streams (in PARAMS) and outputs are   *)
(* float bit patterns; outputs in between are not restricted here.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES obj, heap, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Par   == ndJsonDeserialize(IOEnv.PARAMS)[1]
StreamIx == [s \in {Par.streams[q].sid : q \in 1..Len(Par.streams)} |-> CHOOSE q \in 1..Len(Par.streams) : Par.streams[q].sid = s]
StreamOf(sid) == Par.streams[StreamIx[sid]]
UptoOf(sid, j) == j
CloseTo(sid, a, b) == TRUE
RespNone(c, sid) == <<>>
DeterminedOf(sid) == FALSE
INSTANCE Resampler WITH Objects <- 0..7, Resp <- RespNone, Upto <- UptoOf, Close <- CloseTo, Slack <- LAMBDA c, s : <<>>, Determined <- DeterminedOf, Aspects <- {"out"}
vars == <<obj, heap, l>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == RInit /\ l \in {q \in 1..Len(Trace) : Trace[q].e = "case"}
Begin == IsEvent("case") /\ UNCHANGED <<obj, heap>>
TNew == IsEvent("new") /\ New(Ev.o, [m |-> Ev.m, r |-> Ev.r, p |-> Ev.p, s |-> Ev.s, f |-> Ev.f], Ev)
TQuery == IsEvent("q") /\ Query(Ev.o, Ev, <<Ev.d, Ev.ord, Ev.se>>, TRUE)
\* j: position in the output stream, d: delay in output samples; before the first input sample arrives: zero
Copied(x, s, d, j, v) == LET t == j - d IN
  t % x.cfg.r = 0 => IF t < 0 THEN v \in {0, (-2147483647) - 1} ELSE v = s.x[(t \div x.cfg.r) + 1]
CopyOK(x, s, e) == LET base == e.off * x.cfg.r
                       d == x.ans[1] \div 1000000
                   IN /\ x.ans[1] % 1000000 = 0
                      /\ Len(e.y) = e.n * x.cfg.r
                      /\ \A i \in 1..Len(e.y) : Copied(x, s, d, base + i - 1, e.y[i])
TProcess == IsEvent("p") /\ Process(Ev.o, Ev.sid, Ev.off, Ev.n, Ev)
            /\ Is(LET x == obj[Ev.o]  s == StreamOf(Ev.sid) IN
                   IF x.cfg.r = 1 THEN Ev.y = SubSeq(s.x, Ev.off + 1, Ev.off + Ev.n) ELSE CopyOK(x, s, Ev))
\* all bit patterns of an interval (observed in the same way, by the harness), then reset
TCopyAll == /\ IsEvent("copyall")
            /\ obj[Ev.o].st = "live"
            /\ (obj[Ev.o].cfg.m = "U" \/ obj[Ev.o].cfg.r = 1)
            /\ Ev.d * 1000000 = obj[Ev.o].ans[1]
            /\ Ev.bad = 0
            /\ Reset(Ev.o, Ev)
TReset == IsEvent("r") /\ Reset(Ev.o, Ev)
End == l <= Len(Trace) /\ Ev.e = "end" /\ l' = Len(Trace) + 1 /\ UNCHANGED <<obj, heap>>
Finished == l = Len(Trace) + 1 /\ UNCHANGED vars
TraceNext == Begin \/ TNew \/ TProcess \/ TCopyAll \/ TReset \/ TQuery \/ End \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
