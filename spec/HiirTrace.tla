------------------------------ MODULE HiirTrace -----------------------------
(* Trace specification for the half-band up- and downsamplers.  Values are         *)
(* integers in units of 2^-S; coefficients integers in units of 2^-B.  Exact cases  *)
(* (tol = 0) have been chosen so that no operation rounds; in the other cases       *)
(* products are rounded to the grid and outputs have to agree within tol.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES obj, l, h
Trace == ndJsonDeserialize(IOEnv.TRACE)
Is(b) == b = TRUE
vars == <<obj, l, h>>
Den == 2 ^ h.B
\* rounding product of a value below 2^23 with a coefficient below 2^15 (B = 15), without exceeding 31 bits
FixMul(a, c) == LET ah == a \div 256 al == a % 256 IN (ah * c + ((al * c) \div 256) + 64) \div 128
MulT(a, c) == IF h.tol # 0 THEN FixMul(a, c)
              ELSE IF a % Den = 0 THEN (a \div Den) * c          \* in this order: no overflow with long coefficients
              ELSE IF c % Den = 0 THEN a * (c \div Den)
              ELSE (a * c) \div Den
AddT(a, b) == a + b
SubT(a, b) == a - b
R == INSTANCE Hiir WITH Mul <- MulT, Add <- AddT, Sub <- SubT
Near(a, b) == a - b <= h.tol /\ b - a <= h.tol
Ev == Trace[l]
Op(e) == l <= Len(Trace) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED h
None == [d |-> "-", f |-> R!Zero(<<>>)]
\* upsampling: n inputs, 2n outputs
RECURSIVE Up(_, _, _)
Up(f, x, y) == IF x = <<>> THEN [ok |-> y = <<>>, f |-> f]
               ELSE LET r == R!Both(f, x[1], x[1]) IN
                    IF Near(y[1], r.a) /\ Near(y[2], r.b) THEN Up(r.f, Tail(x), SubSeq(y, 3, Len(y))) ELSE [ok |-> FALSE, f |-> f]
\* downsampling: 2n inputs, n outputs; with split: low (the downsampled signal) and high
RECURSIVE Down(_, _, _, _, _)
Down(f, x, k, lo, hi) ==
  IF 2 * k = Len(x) THEN [ok |-> TRUE, f |-> f]
  ELSE LET r == R!Both(f, x[2 * k + 2], x[2 * k + 1]) IN
       IF Near(2 * lo[k + 1], r.a + r.b) /\ (hi # <<>> => Near(2 * hi[k + 1], r.a - r.b)) THEN Down(r.f, x, k + 1, lo, hi) ELSE [ok |-> FALSE, f |-> f]
TraceInit == l \in {q \in 1..Len(Trace) : Trace[q].e = "case"} /\ obj = [i \in 0..1 |-> [d |-> "-", f |-> [c |-> <<>>, x |-> <<>>, y |-> <<>>]]] /\ h = Trace[l]
Begin == Op("case") /\ UNCHANGED obj
New == Op("new") /\ obj' = [obj EXCEPT ![Ev.o] = [d |-> Ev.d, f |-> R!Zero(Ev.c)]]
Coefs == Op("coefs") /\ obj' = [obj EXCEPT ![Ev.o].f = R!Coefs(@, Ev.c)]
ClearIt == Op("clear") /\ obj' = [obj EXCEPT ![Ev.o].f = R!Clear(@)]
Copy == Op("copy") /\ obj' = [obj EXCEPT ![Ev.b] = obj[Ev.o]]
\* bad: samples written outside of the output, inputs changed although no output lies there
CallUp == /\ Op("up") /\ Ev.bad = 0 /\ Len(Ev.y) = 2 * Len(Ev.x)
          /\ LET r == Up(obj[Ev.o].f, Ev.x, Ev.y) IN Is(r.ok) /\ obj' = [obj EXCEPT ![Ev.o].f = r.f]
CallDown == /\ Op("down") /\ Ev.bad = 0 /\ 2 * Len(Ev.y) = Len(Ev.x)
            /\ LET r == Down(obj[Ev.o].f, Ev.x, 0, Ev.y, <<>>) IN Is(r.ok) /\ obj' = [obj EXCEPT ![Ev.o].f = r.f]
CallSplit == /\ Op("split") /\ Ev.bad = 0 /\ 2 * Len(Ev.y) = Len(Ev.x) /\ Len(Ev.hi) = Len(Ev.y)
             /\ LET r == Down(obj[Ev.o].f, Ev.x, 0, Ev.y, Ev.hi) IN Is(r.ok) /\ obj' = [obj EXCEPT ![Ev.o].f = r.f]
\* Long calls, observed at both ends.  The filter forgets (the coefficients of these cases are well below 1), so the
\* last outputs follow from the last inputs, whatever the state before was; the state is then known again.
\* dev: largest difference between the outputs and those of a copy that got the same samples one by one
From(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
RECURSIVE Run(_, _, _)
Run(f, x, per) == IF x = <<>> THEN f ELSE Run(R!Both(f, x[per], x[1]).f, SubSeq(x, per + 1, Len(x)), per)
Settled(f, x, n, per) == Run(R!Clear(f), SubSeq(x, 1, Len(x) - n * per), per)      \* state before the last n samples
BigUp == /\ Op("bigup") /\ Ev.bad = 0 /\ Ev.dev <= h.dev
         /\ Len(Ev.y) = 2 * Len(Ev.x)
         /\ LET n == Len(Ev.ty) \div 2
                r == Up(Settled(obj[Ev.o].f, Ev.tx, n, 1), From(Ev.tx, n), Ev.ty) IN
            /\ Is(Up(obj[Ev.o].f, Ev.x, Ev.y).ok) /\ Is(r.ok) /\ obj' = [obj EXCEPT ![Ev.o].f = r.f]
BigDown(hi, thi) ==
         /\ Ev.bad = 0 /\ Ev.dev <= h.dev
         /\ 2 * Len(Ev.y) = Len(Ev.x)
         /\ LET n == Len(Ev.ty)
                r == Down(Settled(obj[Ev.o].f, Ev.tx, n, 2), From(Ev.tx, 2 * n), 0, Ev.ty, thi) IN
            /\ Is(Down(obj[Ev.o].f, Ev.x, 0, Ev.y, hi).ok) /\ Is(r.ok) /\ obj' = [obj EXCEPT ![Ev.o].f = r.f]
BigLow == Op("bigdown") /\ BigDown(<<>>, <<>>)
BigSplit == Op("bigsplit") /\ Len(Ev.hi) = Len(Ev.y) /\ Len(Ev.thi) = Len(Ev.ty) /\ BigDown(Ev.hi, Ev.thi)
End == l <= Len(Trace) /\ Ev.e = "end" /\ l' = Len(Trace) + 1 /\ UNCHANGED <<obj, h>>
Finished == l = Len(Trace) + 1 /\ UNCHANGED vars
TraceNext == Begin \/ New \/ Coefs \/ ClearIt \/ Copy \/ CallUp \/ CallDown \/ CallSplit \/ BigUp \/ BigLow \/ BigSplit \/ End \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
