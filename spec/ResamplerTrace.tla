-------------------------- MODULE ResamplerTrace ---------------------------
(* Trace specification: every case recorded from the real code must be a        *)
(* behaviour of Resampler.  One initial state per case; a case whose next       *)
(* event is not allowed by the specification is a deadlock.                     *)
(*   TRACE  ndjson log of the harness                                           *)
(*   GOLD   ndjson, one line per (configuration, stream): the response of a     *)
(*          fresh object                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Numbers
VARIABLES obj, heap, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Gold  == ndJsonDeserialize(IOEnv.GOLD)
Par   == ndJsonDeserialize(IOEnv.PARAMS)[1]      \* tolerance, aspects
Key(c, sid) == IF c.r = 1 THEN <<"x", 1, 0, 0, "x", sid>> ELSE <<c.m, c.r, c.p, IF Par.sseblind = 1 THEN 0 ELSE c.s, c.f, sid>>
GoldIx == [k \in {Key(Gold[g], Gold[g].sid) : g \in 1..Len(Gold)} |-> CHOOSE g \in 1..Len(Gold) : Key(Gold[g], Gold[g].sid) = k]
StreamIx == [s \in {Par.streams[q].sid : q \in 1..Len(Par.streams)} |-> CHOOSE q \in 1..Len(Par.streams) : Par.streams[q].sid = s]
StreamOf(sid) == Par.streams[StreamIx[sid]]
Min2(a, b) == IF a < b THEN a ELSE b
\* sparsely logged streams: position j is logged iff j % mod < win
Compact(s, j) == (j \div s.mod) * s.win + Min2(j % s.mod, s.win)
UptoOf(sid, j) == Compact(StreamOf(sid), j)
RespOf(c, sid) == Gold[GoldIx[Key(c, sid)]].y
SlackOf(c, sid) == LET g == Gold[GoldIx[Key(c, sid)]] IN IF StreamOf(sid).slack = 1 THEN g.t ELSE <<>>
DeterminedOf(sid) == StreamOf(sid).fin = 1
CloseTo(sid, a, b) ==
  Within(a, b, StreamOf(sid).tol)
AspectSet == {Par.aspects[q] : q \in 1..Len(Par.aspects)}
INSTANCE Resampler WITH Objects <- 0..7, Resp <- RespOf, Upto <- UptoOf, Close <- CloseTo, Slack <- SlackOf, Determined <- DeterminedOf, Aspects <- AspectSet
vars == <<obj, heap, l>>

Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
Cfg(e) == [m |-> e.m, r |-> e.r, p |-> e.p, s |-> e.s, f |-> e.f]
TraceInit == RInit /\ l \in {q \in 1..Len(Trace) : Trace[q].e = "case"}
Begin == IsEvent("case") /\ UNCHANGED <<obj, heap>>
TNew == IsEvent("new") /\ New(Ev.o, Cfg(Ev), Ev)
TProcess == IsEvent("p") /\ Process(Ev.o, Ev.sid, Ev.off, Ev.n, Ev)
TRefuse == \/ IsEvent("p") /\ Refuse(Ev.o, Ev.n, Ev)
           \/ IsEvent("refuse") /\ Refuse(Ev.o, Ev.lo, Ev)       \* n = hi * 2^20 + lo
TNews == IsEvent("news") /\ News([m |-> Ev.m, r |-> Ev.fix, p |-> Ev.fix, s |-> Ev.s, f |-> Ev.f], Ev.axis, Ev)
TReset == IsEvent("r") /\ Reset(Ev.o, Ev)
\* what the query functions have to answer
QueryOK(c, e) == /\ e.se = (IF c.r > 1 /\ c.s = 1 /\ e.av = 1 THEN 1 ELSE 0)
                 /\ c.f = "F" => e.ord = (IF c.r = 1 THEN 0 ELSE FirOrder(c.p))
                 /\ c.f = "I" => (c.r = 1 <=> e.ord = 0)
                 /\ e.d >= 0 /\ (c.r = 1 => e.d = 0)
TQuery == IsEvent("q") /\ Query(Ev.o, Ev, <<Ev.d, Ev.ord, Ev.se>>, QueryOK(obj[Ev.o].cfg, Ev))
TMoveC == IsEvent("mv") /\ MoveConstruct(Ev.o, Ev.b, Ev)
TMoveA == IsEvent("ma") /\ MoveAssign(Ev.o, Ev.b, Ev)
TSelfTest == IsEvent("tfi") /\ Ev.ok = 1 /\ Ev.err = 0 /\ UNCHANGED <<obj, heap>>
TDestroy == IsEvent("del") /\ Destroy(Ev.o, Ev)
\* several calls that overlapped in time, on different objects: each is an ordinary Process of its object
Overlap == /\ IsEvent("par") \/ IsEvent("free")
           /\ \A k \in 1..Len(Ev.calls) : LET e == Ev.calls[k] IN
                /\ \A q \in 1..Len(Ev.calls) : q # k => Ev.calls[q].o # e.o
                /\ obj[e.o].st = "live" /\ Is(Feeds(obj[e.o], e.sid, e.off))
                /\ Is(ProcessResult(obj[e.o], e.sid, e.off, e.n, e)) /\ KeepsEnv(e)
           /\ obj' = [o \in DOMAIN obj |->
                        IF \E k \in 1..Len(Ev.calls) : Ev.calls[k].o = o
                        THEN LET e == Ev.calls[CHOOSE k \in 1..Len(Ev.calls) : Ev.calls[k].o = o] IN Advance(obj[o], e.sid, e.off, e.n)
                        ELSE obj[o]]
           /\ UNCHANGED heap
TSoak == IsEvent("soak") /\ Soak(Ev.o, Ev.sid, Ev.off, Ev.n, StreamOf(Ev.sid).per, Ev)
TWear == IsEvent("wear") /\ Wear(Ev.o, Ev.sid, Ev.n, Ev @@ [w |-> 0, nn |-> 0])
TCrowd == IsEvent("crowd") /\ Crowd(Ev.o, Ev.sid, Ev.n, Ev @@ [w |-> OutCount(obj[Ev.o].cfg, Ev.n), x |-> 0, nn |-> 0])
TSweep == IsEvent("sweep") /\ Sweep(Ev.o, Ev.sid, Ev.n, Ev @@ [w |-> OutCount(obj[Ev.o].cfg, Ev.n), nn |-> 0])
TGiant == IsEvent("giant") /\ Giant(Ev.o, Ev.sid, Ev.lo, Ev.per, Ev.k, Ev)
End == l <= Len(Trace) /\ Ev.e = "end" /\ l' = Len(Trace) + 1 /\ UNCHANGED <<obj, heap>>
Finished == l = Len(Trace) + 1 /\ UNCHANGED vars
TraceNext == Begin \/ TNew \/ TProcess \/ TRefuse \/ TReset \/ TQuery \/ TMoveC \/ TMoveA \/ TDestroy \/ TSelfTest \/ TSoak \/ TWear \/ TCrowd \/ TSweep \/ TGiant \/ TNews \/ Overlap \/ End \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
