------------------------------- MODULE Cascade -------------------------------
(* The cascade of factor 2 stages behind ratio 4 and 8: process_block cuts its      *)
(* input into chunks, passes every chunk through the stages by way of scratch       *)
(* buffers, and advances input and output.  Stages are abstract stream functions    *)
(* that count samples; kernels of tiny symmetric filters are composed symbolically  *)
(* to decide the delay of the cascade.                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Chunk,          \* input samples per chunk
          Cap,            \* capacity of each scratch buffer
          NMax            \* largest block size explored
VARIABLES mode, ratio, n,         \* the call
          pos, opos,              \* input consumed, output produced
          stage, len,             \* stage about to run, samples in its input buffer
          hiw                     \* high water mark of the scratch buffers
vars == <<mode, ratio, n, pos, opos, stage, len, hiw>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Stages(r) == CASE r = 1 -> 0 [] r = 2 -> 1 [] r = 4 -> 2 [] r = 8 -> 3
OutCount == IF mode = "U" THEN n * ratio ELSE n \div ratio
Init == /\ mode \in {"U", "D"} /\ ratio \in {2, 4, 8} /\ n \in 0..NMax
        /\ mode = "D" => n % ratio = 0
        /\ pos = 0 /\ opos = 0 /\ stage = 0 /\ len = 0 /\ hiw = 0
\* stage 0: take the next chunk
Take == /\ stage = 0 /\ pos < n
        /\ len' = (IF ratio = 2 THEN n ELSE Min2(Chunk, n - pos))
        /\ pos' = pos + len' /\ stage' = 1 /\ UNCHANGED <<mode, ratio, n, opos, hiw>>
Run == /\ stage > 0
       /\ LET out == IF mode = "U" THEN len * 2 ELSE len \div 2
          IN IF stage = Stages(ratio) THEN opos' = opos + out /\ len' = 0 /\ stage' = 0 /\ hiw' = hiw
             ELSE opos' = opos /\ len' = out /\ stage' = stage + 1 /\ hiw' = Max2(hiw, out)
       /\ UNCHANGED <<mode, ratio, n, pos>>
Done == stage = 0 /\ pos = n /\ UNCHANGED vars
Next == Take \/ Run \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Run)
InBounds == pos <= n /\ opos <= OutCount /\ hiw <= Cap
NoOddStage == (stage > 0 /\ mode = "D") => len % 2 = 0          \* no stage is ever given half a pair
NothingLost == (stage = 0) => opos = (IF mode = "U" THEN pos * ratio ELSE pos \div ratio)
Complete == (stage = 0 /\ pos = n) => opos = OutCount
Finishes == <>(stage = 0 /\ pos = n)

Ind == INSTANCE CascadeInd WITH chunk <- Chunk       \* proven there for all sizes of blocks and chunks
Refines == Ind!Spec

\* ---- delay of a cascade: kernels are symmetric filters of even length o (o taps of the half-band branch)
\* up stage: 2k even outputs: convolution, 2k+1: the delayed sample; centre at o - 1 high-rate samples
UpCentre(o) == o - 1
Compose(m, o) == CASE Len(o) = 1 -> UpCentre(o[1])
                   [] Len(o) = 2 -> 2 * UpCentre(o[1]) + UpCentre(o[2])
                   [] Len(o) = 3 -> 4 * UpCentre(o[1]) + 2 * UpCentre(o[2]) + UpCentre(o[3])
\* the same cascade as explicit kernels: support of the composed response to a unit impulse
RECURSIVE Spread(_, _)
Spread(o, k) == IF k = 0 THEN {0}
                ELSE LET prev == Spread(o, k - 1) IN {2 * i + j : i \in prev, j \in 0..(2 * (o[k] - 1))}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
CentreOK == \A a \in {2, 4}, b \in {2, 4}, c \in {2, 4} : \A q \in {<<a>>, <<a, b>>, <<a, b, c>>} :
              LET S == Spread(q, Len(q)) IN SetMin(S) + SetMax(S) = 2 * Compose("U", q)
ASSUME CentreOK
\* downsampling runs the same filters in reverse order; stage delay o/2 - 1/2 at its output, later stages count full.
\* in samples of the highest rate: the same centre
DownHigh(o) == CASE Len(o) = 1 -> o[1] - 1
                 [] Len(o) = 2 -> 4 * ((o[1] - 1) \div 2) + 2 * ((o[1] - 1) % 2) + (o[2] - 1)
                 [] Len(o) = 3 -> 4 * (o[1] - 1) + 2 * (o[2] - 1) + (o[3] - 1)
ASSUME \A a, b, c \in {2, 4, 12, 52} : \A q \in {<<a>>, <<a, b>>, <<a, b, c>>} : DownHigh(q) = Compose("D", q)
=============================================================================
