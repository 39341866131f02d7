----------------------------- MODULE Resampler -----------------------------
(* The contract of Resampler2 objects as a state machine over the public API.   *)
(*                                                                             *)
(* An object that has consumed the first `pos` samples of input stream `sid`    *)
(* since it was created or reset is completely described by (cfg, sid, pos):    *)
(* whatever the block sizes, alignments, other objects, threads, resets and     *)
(* moves were, the outputs of the next call are the next outputs of the one     *)
(* response Resp(cfg, sid).  Everything an execution may do is a named       *)
(* action; the observations it makes (outputs, memory footprint, diagnostics,   *)
(* heap use) are parameters of the actions.                                     *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE Numbers
CONSTANTS
  Objects,
  Resp(_, _),            \* Resp(cfg, sid): the outputs of a fresh resampler cfg fed with stream sid, as a sequence
  Upto(_, _),            \* Upto(sid, j): how many of the outputs before position j are observed (all: j)
  Determined(_),         \* Determined(sid): the stream is finite, so its outputs are determined
  Close(_, _, _),        \* Close(sid, a, b): two output observations are the same signal
  Slack(_, _),           \* Slack(cfg, sid): if not <<>>, the differences allowed at each output instead of those of Close
  Aspects                \* which observations bind: subset of
                         \* {"out","foot","clean","diag","heap","query","qconst","fpenv"}

VARIABLES obj,           \* Objects -> state of the object
          heap           \* heap blocks owned by all objects together
rvars == <<obj, heap>>

Modes == {"U", "D"}
Precisions == {1, 8, 12, 16, 20, 24}
Supported(c) == /\ c.m \in Modes /\ c.r \in {1, 2, 4, 8} /\ c.f \in {"F", "I"}
                /\ \/ c.r = 1       \* no filter is needed
                   \/ c.p \in Precisions /\ ~(c.f = "I" /\ c.p = 1)
OutCount(c, n) == IF c.m = "U" THEN n * c.r ELSE n \div c.r
\* number of coefficients of the FIR filters of the factor 2, 4 and 8 stage by precision
StageOrder(st, p) ==
  CASE st = 2 -> (CASE p = 1 -> 2 [] p = 8 -> 16 [] p = 12 -> 24 [] p = 16 -> 32 [] p = 20 -> 42 [] p = 24 -> 52)
    [] st = 4 -> (CASE p = 1 -> 2 [] p = 8 -> 6 [] p = 12 -> 8 [] p = 16 -> 10 [] p = 20 -> 14 [] p = 24 -> 16)
    [] st = 8 -> (CASE p = 1 -> 2 [] p = 8 -> 4 [] p = 12 -> 6 [] p = 16 -> 8 [] p = 20 -> 10 [] p = 24 -> 12)
FirOrder(p) == StageOrder(2, p)
\* input samples after which a filter has certainly forgotten (FIR), or its memory is inaudible (IIR); every FIR
\* stage may look at four more samples than its filter has (vectors of four), with coefficient zero
FirForget(c) == IF c.m = "U"
                THEN (FirOrder(c.p) + 4) + (IF c.r >= 4 THEN (StageOrder(4, c.p) + 5) \div 2 ELSE 0) + (IF c.r = 8 THEN (StageOrder(8, c.p) + 7) \div 4 ELSE 0)
                ELSE c.r * (FirOrder(c.p) + 4) + (IF c.r >= 4 THEN (c.r \div 2) * (StageOrder(4, c.p) + 4) ELSE 0) + (IF c.r = 8 THEN 2 * (StageOrder(8, c.p) + 4) ELSE 0)
Forget(c) == IF c.r = 1 THEN 0
             ELSE IF c.f = "F" THEN FirForget(c) ELSE 2000 * (IF c.m = "D" THEN c.r ELSE 1)

\* evaluate as one expression (TLC expands a universal quantifier of an action into its conjuncts otherwise)
Is(b) == b = TRUE
None == [st |-> "none"]
Fresh(c) == [st |-> "live", cfg |-> c, sid |-> -1, pos |-> 0, dirty |-> FALSE, ans |-> <<>>]
RInit == obj = [o \in Objects |-> None] /\ heap = 0

Binds(a) == a \in Aspects
Silent(obs) == Binds("diag") => obs.err = 0
NoHeap(obs) == Binds("heap") => obs.na = 0 /\ obs.nf = 0
\* the rounding and denormal modes of the calling thread are as before the call
KeepsEnv(obs) == Binds("fpenv") => obs.fe = 0

New(o, c, obs) ==
  /\ obj[o].st = "none"
  /\ Binds("diag") => IF Supported(c) THEN obs.err = 0 ELSE obs.err > 0
  /\ KeepsEnv(obs)
  /\ obj' = [obj EXCEPT ![o] = Fresh(c)]
  /\ heap' = heap + obs.lb

\* the stream the object is in after taking block [off, off+n) of stream sid, if the call is one the contract covers
Feeds(x, sid, off) == \/ x.pos = off /\ (x.sid = sid \/ x.pos = 0)
                      \/ off = 0                                    \* a new stream without reset
ProcessResult(x, sid, off, n, obs) ==
  LET c == x.cfg
      sw == ~(x.pos = off /\ (x.sid = sid \/ x.pos = 0))            \* switch of streams without reset
      dirty == x.dirty \/ sw
      base == OutCount(c, off)
      cnt == OutCount(c, n)
      lo == Upto(sid, base)
      hi == Upto(sid, base + cnt)
      resp == Resp(c, sid)
      slack == Slack(c, sid)
      firm == IF dirty THEN Upto(sid, OutCount(c, Forget(c))) ELSE 0  \* outputs from here on are determined
  IN /\ Binds("foot") => obs.w = cnt /\ obs.x = 0
     \* whatever surrounds the input block (here: NaN) has no influence on the output
     /\ (Binds("clean") /\ Determined(sid) /\ ~dirty) => obs.nn = 0
     /\ Binds("out") => /\ Len(obs.y) = hi - lo
                        /\ Determined(sid) => Is(\A k \in 1..(hi - lo) : lo + k > firm =>
                                                      IF slack = <<>> THEN Close(sid, obs.y[k], resp[lo + k]) ELSE Within(obs.y[k], resp[lo + k], slack[lo + k]))
Advance(x, sid, off, n) ==
  LET sw == ~(x.pos = off /\ (x.sid = sid \/ x.pos = 0))
  IN [x EXCEPT !.sid = sid, !.pos = off + n, !.dirty = @ \/ sw]
Process(o, sid, off, n, obs) ==
  /\ obj[o].st = "live"
  /\ Is(Feeds(obj[o], sid, off))
  /\ obj[o].cfg.m = "D" => n % obj[o].cfg.r = 0
  /\ Is(ProcessResult(obj[o], sid, off, n, obs))
  /\ Silent(obs) /\ NoHeap(obs) /\ KeepsEnv(obs)
  /\ obj' = [obj EXCEPT ![o] = Advance(@, sid, off, n)]
  /\ UNCHANGED heap

\* Long runs, observed in a condensed way: obs.dev is the largest difference between outputs that have to be equal,
\* obs.x counts calls that wrote behind their output block.
\* a periodic stream: from `per.off` on it repeats a segment of per.n samples; once the object has consumed the first
\* repetition (and forgotten what was before), all further repetitions, in any blocks, give the same outputs
Soak(o, sid, off, n, per, obs) ==
  /\ obj[o].st = "live" /\ obj[o].sid = sid /\ ~obj[o].dirty
  /\ off = per.off /\ n = per.n /\ (obj[o].pos - off) % n = 0
  /\ obj[o].pos >= off + Forget(obj[o].cfg)
  /\ Binds("out") => Close(sid, 0, obs.dev)
  /\ Binds("foot") => obs.x = 0
  /\ Silent(obs) /\ NoHeap(obs) /\ KeepsEnv(obs)
  /\ UNCHANGED rvars
\* obs.times repetitions of Process, Query and Reset: each is like the first
Wear(o, sid, n, obs) ==
  /\ obj[o].st = "live" /\ obj[o].pos = 0
  /\ Is(ProcessResult(obj[o], sid, 0, n, [obs EXCEPT !.w = OutCount(obj[o].cfg, n)]))
  /\ Binds("out") => Close(sid, 0, obs.dev)
  /\ Silent(obs) /\ NoHeap(obs) /\ KeepsEnv(obs)
  /\ UNCHANGED rvars
\* obs.times further objects like o that are created, used in turn and destroyed
Crowd(o, sid, n, obs) ==
  /\ obj[o].st = "live"
  /\ Is(ProcessResult(Fresh(obj[o].cfg), sid, 0, n, obs))
  /\ Binds("out") => Close(sid, 0, obs.dev)
  /\ Binds("heap") => obs.lb = 0
  /\ Silent(obs) /\ KeepsEnv(obs)
  /\ UNCHANGED rvars

\* obs.times fresh objects like o, each of them fed with the beginning of the stream in another sequence of blocks
\* (mode "r": after another stream and a reset; mode "o": with refused blocks in between, obs.mute of them not reported)
Sweep(o, sid, n, obs) ==
  /\ obj[o].st = "live"
  /\ Is(ProcessResult(Fresh(obj[o].cfg), sid, 0, n, obs))
  /\ Binds("out") => Close(sid, 0, obs.dev)
  /\ Binds("foot") => obs.x = 0
  /\ Binds("diag") => obs.mute = 0
  /\ Silent(obs) /\ NoHeap(obs) /\ KeepsEnv(obs)
  /\ UNCHANGED rvars
\* one block of more samples than can be written down here: n = hi * 2^20 + lo samples of a stream that repeats its
\* first `per` samples (per divides 2^20); observed are the first and the last k outputs
Giant(o, sid, lo, per, k, obs) ==
  LET c == obj[o].cfg
      pos == obj[o].pos
      base == ((Forget(c) \div per) + 1) * per + ((pos + lo) % per)      \* the filter has settled, same phase as pos + n
      resp == Resp(c, sid)
  IN /\ obj[o].st = "live" /\ ~obj[o].dirty /\ (pos = 0 \/ obj[o].sid = sid)
     /\ c.m = "D" => (lo % c.r) = 0
     /\ (Binds("out") /\ Determined(sid)) => Is(\A j \in 1..k : Close(sid, obs.head[j], resp[OutCount(c, pos) + j]) /\ Close(sid, obs.tail[j], resp[OutCount(c, base) - k + j]))
     /\ Binds("foot") => obs.x = 0 /\ obs.un = 0
     /\ Silent(obs) /\ NoHeap(obs) /\ KeepsEnv(obs)
     /\ obj' = [obj EXCEPT ![o] = Advance(@, sid, 0, base)]
     /\ UNCHANGED heap

\* an odd block for the factor 2 FIR downsampler is refused: reported, nothing written, stream unchanged
Refuse(o, n, obs) ==
  /\ obj[o].st = "live"
  /\ LET c == obj[o].cfg IN c.m = "D" /\ c.r = 2 /\ c.f = "F" /\ n % 2 = 1
  /\ Binds("diag") => obs.err > 0
  /\ Binds("foot") => obs.w = 0 /\ obs.x = 0
  /\ KeepsEnv(obs)
  /\ UNCHANGED rvars

\* many objects, constructed and destroyed one after another, that differ in one argument: observed are the intervals
\* obs.v of arguments that were (d = 1) or were not (d = 0) reported as wrong
News(c, axis, obs) ==
  LET Good(v) == Supported(IF axis = "r" THEN [c EXCEPT !.r = v] ELSE [c EXCEPT !.p = v])
      Cand == {v \in 0..25 : Good(v)}                \* no argument beyond these is supported
      all == axis = "p" /\ c.r = 1                    \* (except that ratio 1 ignores the precision)
      Num(iv) == IF all THEN iv.b - iv.a + 1 ELSE Cardinality({v \in Cand : iv.a <= v /\ v <= iv.b})
  IN /\ Is(/\ Len(obs.v) > 0 /\ obs.v[1].a = obs.a /\ obs.v[Len(obs.v)].b = obs.b
           /\ \A k \in 1..(Len(obs.v) - 1) : obs.v[k].b + 1 = obs.v[k + 1].a
           /\ Binds("diag") => \A k \in 1..Len(obs.v) : LET iv == obs.v[k] IN
                                  IF iv.d = 1 THEN Num(iv) = 0 ELSE Num(iv) = iv.b - iv.a + 1)
     /\ Binds("heap") => obs.lb = 0
     /\ KeepsEnv(obs)
     /\ UNCHANGED rvars

Reset(o, obs) ==
  /\ obj[o].st = "live"
  /\ Silent(obs) /\ NoHeap(obs) /\ KeepsEnv(obs)
  /\ obj' = [obj EXCEPT ![o] = [Fresh(@.cfg) EXCEPT !.ans = obj[o].ans]]
  /\ UNCHANGED heap

\* ans: the answers of the query functions; they never change, ok: they are the right ones
Query(o, obs, ans, ok) ==
  /\ obj[o].st = "live"
  /\ Silent(obs) /\ NoHeap(obs) /\ KeepsEnv(obs)
  /\ Binds("qconst") => obj[o].ans \in {<<>>, ans}
  /\ Binds("query") => ok
  /\ obj' = [obj EXCEPT ![o].ans = ans]
  /\ UNCHANGED heap

\* the stream continues in the new object; the old one can only be destroyed (or assigned to)
MoveConstruct(a, b, obs) ==
  /\ obj[a].st = "live" /\ obj[b].st = "none" /\ a # b
  /\ KeepsEnv(obs)
  /\ obj' = [obj EXCEPT ![b] = obj[a], ![a] = [st |-> "moved"]]
  /\ heap' = heap + obs.lb
MoveAssign(a, b, obs) ==
  /\ obj[a].st = "live" /\ obj[b].st \in {"live", "moved"} /\ a # b
  /\ KeepsEnv(obs)
  /\ obj' = [obj EXCEPT ![b] = obj[a], ![a] = [st |-> "moved"]]
  /\ heap' = heap + obs.lb

Destroy(o, obs) ==
  /\ obj[o].st # "none"
  /\ KeepsEnv(obs)
  /\ obj' = [obj EXCEPT ![o] = None]
  /\ heap' = heap + obs.lb
  \* nothing may stay behind when the last object is gone
  /\ Binds("heap") => ((\A q \in Objects \ {o} : obj[q].st = "none") => heap' = 0)
=============================================================================
