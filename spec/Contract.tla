------------------------------ MODULE Contract ------------------------------
(* What each precision promises, as a specification over measurements of the real  *)
(* code.  A measurement is one record; a record the specification does not accept   *)
(* is a deadlock.  Units: delays in micro samples, gains in micro dB, attenuations  *)
(* and errors in milli dB, kernels in 26-bit fixed point, DC errors in 1e-9.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE l
Rec == ndJsonDeserialize(IOEnv.TRACE)
Par == ndJsonDeserialize(IOEnv.PARAMS)[1]
INSTANCE Resampler WITH Objects <- {}, Resp <- LAMBDA c, s : <<>>, Upto <- LAMBDA s, j : j, Close <- LAMBDA s, a, b : TRUE,
                        Slack <- LAMBDA c, s : <<>>, Determined <- LAMBDA s : TRUE, Aspects <- {}, obj <- <<>>, heap <- 0
Abs(a) == IF a < 0 THEN -a ELSE a
One == 67108864

\* ---- pass band and stop band
PassLimit(p) == CASE p = 8 -> 50000 [] p = 12 -> 5000 [] p = 16 -> 1000 [] p = 20 -> 500 [] p = 24 -> 500
StopLimit(p) == CASE p = 8 -> 48000 [] p = 12 -> 72000 [] p = 16 -> 95000 [] p = 20 -> 119000 [] p = 24 -> 138000
\* a gain error of PassLimit, as a factor in 1e-9
DcLimit(p) == CASE p = 1 -> 1000 [] p = 8 -> 5770000 [] p = 12 -> 576000 [] p = 16 -> 115200 [] p = 20 -> 57600 [] p = 24 -> 57600
SpectrumOK(e) == /\ e.dc <= DcLimit(e.p) /\ e.dcp <= DcLimit(e.p)
                 /\ e.p # 1 => e.pass <= PassLimit(e.p) /\ e.stop >= StopLimit(e.p)

\* ---- delay
\* kernel g[i], i counted on the grid of the higher rate; for downsampling assembled from the responses to the
\* phases: output j is the sum over q of x[q] * g[r*j - q]
G(e, i) == IF i - e.goff < 0 \/ i - e.goff >= Len(e.g) THEN 0 ELSE e.g[i - e.goff + 1]
\* twice the delay in samples of the higher rate
TwiceHigh(e) == IF e.m = "U" THEN 2 * e.d ELSE 2 * e.r * e.d
DelayOK(e) ==
  /\ e.d >= 0 /\ e.d = e.dlater
  /\ e.r = 1 => e.d = 0
  /\ (e.r > 1 /\ e.f = "F") =>
       LET t == TwiceHigh(e) IN
       /\ t % 1000000 = 0                       \* the centre lies on a sample or between two of them
       /\ e.m = "U" => e.d % 1000000 = 0
       /\ (e.m = "D" /\ e.r = 2) => e.d % 500000 = 0
       /\ LET c2 == t \div 1000000 IN           \* symmetric about c2/2
          Is(\A i \in 0..(Len(e.g) - 1) : LET k == i + e.goff IN Abs(G(e, k) - G(e, c2 - k)) <= 32)
       /\ Is(\E i \in 0..(Len(e.g) - 1) : e.g[i + 1] > One \div 100)
  /\ (e.r > 1 /\ e.f = "I") => Abs((IF e.m = "U" THEN e.d ELSE e.d * e.r) - e.gd) <= 50000
\* a tone of low frequency comes out after delay() samples; deviation in micro samples of the higher rate
ToneOK(e) == Abs(e.dev) <= 50000

\* ---- round trip, error in milli dB below full scale
\* two pass band errors plus what the stop band leaves
RoundLimit(p) == CASE p = 8 -> -41000 [] p = 12 -> -60000 [] p = 16 -> -86000 [] p = 20 -> -108000 [] p = 24 -> -116000
Worse(p, q) == IF p < q THEN p ELSE q
\* FIR: waveform error; IIR: error of the magnitude, and of the waveform at low frequencies
RoundOK(e) == /\ e.nout = e.nin /\ e.errs = 0
              /\ IF e.hz <= 18000 THEN e.fit <= RoundLimit(Worse(e.pu, e.pd)) ELSE TRUE
              /\ e.f = "F" => e.err <= RoundLimit(Worse(e.pu, e.pd))
              /\ e.f = "I" /\ e.hz <= 1000 => Abs(e.dev) <= 50000

Accept(e) == CASE e.k = "spectrum" -> SpectrumOK(e)
               [] e.k = "delay" -> DelayOK(e)
               [] e.k = "tone" -> ToneOK(e)
               [] e.k = "round" -> RoundOK(e)
               [] OTHER -> FALSE
TraceInit == l \in 1..Len(Rec)
TraceNext == (l > 0 /\ Is(Accept(Rec[l])) /\ l' = 0) \/ (l = 0 /\ l' = 0)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
