----------------------------- MODULE DesignTrace ----------------------------
(* Contract of the IIR filter designer, over recorded calls.  Attenuations in milli *)
(* dB, delays in micro samples, transition bands in 1e-9 of the sampling rate.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE l
Rec == ndJsonDeserialize(IOEnv.TRACE)
Is(b) == b = TRUE
Abs(a) == IF a < 0 THEN -a ELSE a
Tol == 50          \* milli dB
\* shape of every set of coefficients: strictly between 0 and 1, increasing, nothing else written
Shape(e) == e.shape = 1 /\ e.touched = 0
\* design from attenuation and transition band
SpecOK(e) == /\ e.n >= 1 /\ e.n = e.n2 /\ e.len = e.n /\ Shape(e) /\ e.same <= 1           \* number of coefficients from both functions; coefficients as for the given order (1e-12)
             /\ (e.n > 1 => e.below < e.att + 1)                                     \* one coefficient less is not enough
             /\ e.own >= e.att - 1                                                   \* attenuation reported for this number
             /\ (e.meas # -1 => e.meas >= e.att - Tol)                               \* the filter itself (-1: beyond the range of double)
\* design from number and transition band: reported attenuation is that of the filter
OrderOK(e) == /\ Shape(e) /\ e.len = e.n
              /\ (e.meas # -1 => e.meas >= e.att - Tol)
              /\ (e.meas # -1 /\ e.att >= 13000 => e.meas <= e.att + Tol)
              /\ e.more > e.att /\ e.wider > e.att                                   \* one more coefficient, wider transition band
\* group delay of one section, of a complete filter; num: derivative of the phase
DelayOK(e) == e.d >= 0 /\ Abs(e.d - e.num) <= 20 + e.num \div 100000
\* design by delay; all limits are inclusive, comparisons with a margin of one unit
GdlyOK(e) ==
  /\ e.ret \in {0, -1} /\ e.touched = 0
  /\ e.ret = 0 => /\ e.shape = 1
                  /\ Abs(e.num - e.gd) <= e.prec + 1 + e.gd \div 100000
                  /\ e.over <= 1                   \* deviation of its own group delay beyond prec, in 1e-14 of the delay
                  /\ (e.nulls = 0 => /\ e.alb - 1 <= e.att /\ e.att <= e.aub + 1
                                     /\ e.tlb - 1 <= e.tbw /\ e.tbw <= e.tub + 1
                                     /\ e.same <= 1000                              \* coefficients are those for the reported transition band
                                     /\ (e.meas # -1 => e.meas >= e.att - Tol /\ (e.att >= 13000 => e.meas <= e.att + Tol)))
                  /\ (e.nulls = 1 /\ e.meas # -1 => e.meas >= e.alb - Tol)
                  /\ e.where # "outside" /\ e.limits # "violated"
  \* clearly feasible: has to succeed
  /\ (e.where = "inside" /\ e.limits = "met") => e.ret = 0
\* the filters of the resampler: delay composed from the designer's group delays, response against the designed filter
Compose(e) == LET g2 == e.g2 g4 == e.g4 g8 == e.g8 IN      \* micro samples, up: at the higher rate of each stage; down: output samples
  IF e.m = "U" THEN CASE e.r = 2 -> g2 [] e.r = 4 -> 2 * g2 + g4 [] e.r = 8 -> 4 * g2 + 2 * g4 + g8
  ELSE LET h2 == (g2 - 1000000) \div 2 h4 == (g4 - 1000000) \div 2 h8 == (g8 - 1000000) \div 2
       IN CASE e.r = 2 -> h2 [] e.r = 4 -> h2 + h4 \div 2 [] e.r = 8 -> h2 + h4 \div 2 + h8 \div 4
TableOK(e) == /\ Abs(e.d - Compose(e)) <= 8
              /\ e.err <= 4000                         \* largest deviation of the impulse response, 1e-9
              /\ e.len >= 300                          \* that much of it was compared
\* the generator of the tables prints what the designer yields
MkOK(e) == e.n = e.want /\ e.dev <= 1 /\ Abs(e.gd - e.g) <= 2
Accept(e) == CASE e.k = "spec" -> SpecOK(e) [] e.k = "order" -> OrderOK(e) [] e.k = "gd" -> DelayOK(e) [] e.k = "gdly" -> GdlyOK(e)
               [] e.k = "table" -> TableOK(e) [] e.k = "mk" -> MkOK(e) [] OTHER -> FALSE
TraceInit == l \in 1..Len(Rec)
TraceNext == (l > 0 /\ Is(Accept(Rec[l])) /\ l' = 0) \/ (l = 0 /\ l' = 0)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
