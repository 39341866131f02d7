----------------------------- MODULE CascadeInd -----------------------------
(* The cascade behind ratio 4 and 8 for every block size and every chunk size   *)
(* that is a multiple of 8 (Cascade is the instance with the chunk of the code). *)
EXTENDS Integers
VARIABLES
    \* @type: Int;
    chunk,
    \* @type: Str;
    mode,
    \* @type: Int;
    ratio,
    \* @type: Int;
    n,
    \* @type: Int;
    pos,
    \* @type: Int;
    opos,
    \* @type: Int;
    stage,
    \* @type: Int;
    len,
    \* @type: Int;
    hiw
civars == <<chunk, mode, ratio, n, pos, opos, stage, len, hiw>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Stages == IF ratio = 2 THEN 1 ELSE IF ratio = 4 THEN 2 ELSE 3
Init == /\ chunk \in Int /\ chunk >= 8 /\ chunk % 8 = 0
        /\ mode \in {"U", "D"} /\ ratio \in {2, 4, 8} /\ n \in Nat
        /\ mode = "D" => n % ratio = 0
        /\ pos = 0 /\ opos = 0 /\ stage = 0 /\ len = 0 /\ hiw = 0
Keep == UNCHANGED <<chunk, mode, ratio, n>>
Take == /\ stage = 0 /\ pos < n
        /\ len' = (IF ratio = 2 THEN n ELSE Min2(chunk, n - pos))
        /\ pos' = pos + len' /\ stage' = 1 /\ Keep /\ UNCHANGED <<opos, hiw>>
Out == IF mode = "U" THEN len * 2 ELSE len \div 2
Run == /\ stage > 0
       /\ IF stage = Stages THEN opos' = opos + Out /\ len' = 0 /\ stage' = 0 /\ hiw' = hiw
          ELSE opos' = opos /\ len' = Out /\ stage' = stage + 1 /\ hiw' = Max2(hiw, Out)
       /\ Keep /\ UNCHANGED pos
Done == stage = 0 /\ pos = n /\ UNCHANGED civars
Next == Take \/ Run \/ Done
Spec == Init /\ [][Next]_civars
-----------------------------------------------------------------------------
\* x input samples of the call are y samples of its output
Same(x, y) == IF mode = "U" THEN IF ratio = 2 THEN y = 2 * x ELSE IF ratio = 4 THEN y = 4 * x ELSE y = 8 * x
              ELSE IF ratio = 2 THEN x = 2 * y ELSE IF ratio = 4 THEN x = 4 * y ELSE x = 8 * y
\* samples of the stage's input buffer in samples of the call's input
InLen(k) == IF mode = "U" THEN IF k = 1 THEN len ELSE IF k = 2 THEN len \div 2 ELSE len \div 4
            ELSE IF k = 1 THEN len ELSE IF k = 2 THEN 2 * len ELSE 4 * len
Aligned(x) == mode = "D" => IF ratio = 2 THEN x % 2 = 0 ELSE IF ratio = 4 THEN x % 4 = 0 ELSE x % 8 = 0
StageOK(k) == /\ len >= 1
              /\ mode = "U" => IF k = 1 THEN TRUE ELSE IF k = 2 THEN len % 2 = 0 ELSE len % 4 = 0
              /\ Aligned(InLen(k))
              /\ ratio # 2 => InLen(k) <= chunk
              /\ Same(pos - InLen(k), opos)
Inv == /\ chunk \in Int /\ chunk >= 8 /\ chunk % 8 = 0
       /\ mode \in {"U", "D"} /\ ratio \in {2, 4, 8} /\ n \in Int /\ n >= 0 /\ pos \in Int /\ opos \in Int /\ len \in Int /\ hiw \in Int
       /\ stage \in 0..3 /\ stage <= Stages
       /\ ratio = 2 => pos \in {0, n}
       /\ Aligned(n) /\ Aligned(pos) /\ 0 <= pos /\ pos <= n /\ opos >= 0
       /\ 0 <= hiw /\ hiw <= 4 * chunk
       /\ stage = 0 => Same(pos, opos)
       /\ stage = 1 => StageOK(1)
       /\ stage = 2 => StageOK(2)
       /\ stage = 3 => StageOK(3)
Safe == /\ stage = 0 => Same(pos, opos)                       \* nothing is lost between chunks
        /\ stage > 0 /\ mode = "D" => len % 2 = 0             \* no stage is ever given half a pair
        /\ stage > 0 /\ stage < Stages => Out <= 4 * chunk    \* scratch buffers
        /\ pos <= n
        /\ (stage = 0 /\ pos = n) => Same(n, opos)            \* complete
=============================================================================
