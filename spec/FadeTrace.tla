----------------------------- MODULE FadeTrace ------------------------------
(* Trace specification of fading memory: whatever finite input went before, once   *)
(* an object has been fed with silence for longer than its memory, the outputs are *)
(* exactly zero (FIR) or below the audible threshold (IIR).  Inputs are either      *)
(* "sound" or "silence"; outputs are float bit patterns.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES cfg, quiet, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Par   == ndJsonDeserialize(IOEnv.PARAMS)[1]     \* silence: numbers of the streams that are all zero
INSTANCE Resampler WITH Objects <- {}, Resp <- LAMBDA c, s : <<>>, Upto <- LAMBDA s, j : j, Close <- LAMBDA s, a, b : TRUE,
                        Slack <- LAMBDA c, s : <<>>, Determined <- LAMBDA s : TRUE, Aspects <- {}, obj <- <<>>, heap <- 0
vars == <<cfg, quiet, l>>
Silence == {Par.silence[k] : k \in 1..Len(Par.silence)}
Logged  == {Par.logged[k] : k \in 1..Len(Par.logged)}
\* magnitude of a float as an integer that grows with it (bit pattern without the sign)
Mag(b) == IF b < 0 THEN (b + 2147483647) + 1 ELSE b
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1
TraceInit == l \in {q \in 1..Len(Trace) : Trace[q].e = "case"} /\ cfg = [thr |-> Trace[l].thr] /\ quiet = 0
Begin == IsEvent("case") /\ UNCHANGED <<cfg, quiet>>
TNew == /\ IsEvent("new")
        /\ cfg' = [m |-> Ev.m, r |-> Ev.r, p |-> Ev.p, s |-> Ev.s, f |-> Ev.f, thr |-> cfg.thr] /\ quiet' = Forget(cfg')
TSound == (IsEvent("p") \/ IsEvent("giant")) /\ Ev.sid \notin Silence /\ quiet' = 0 /\ UNCHANGED cfg
TSilence == /\ IsEvent("p") /\ Ev.sid \in Silence
            /\ LET limit == IF cfg.f = "F" THEN 0 ELSE cfg.thr
                   from == IF quiet >= Forget(cfg) THEN 0 ELSE OutCount(cfg, Forget(cfg) - quiet)     \* determined from here on
               IN Ev.sid \in Logged => /\ Len(Ev.y) = OutCount(cfg, Ev.n)
                                       /\ Is(\A k \in (from + 1)..Len(Ev.y) : Mag(Ev.y[k]) <= limit)
            /\ quiet' = quiet + Ev.n /\ UNCHANGED cfg
TReset == IsEvent("r") /\ quiet' = Forget(cfg) /\ UNCHANGED cfg
End == l <= Len(Trace) /\ Ev.e = "end" /\ l' = Len(Trace) + 1 /\ UNCHANGED <<cfg, quiet>>
Finished == l = Len(Trace) + 1 /\ UNCHANGED vars
TraceNext == Begin \/ TNew \/ TSound \/ TSilence \/ TReset \/ End \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
