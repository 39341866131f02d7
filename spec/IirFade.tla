------------------------------ MODULE IirFade -------------------------------
(* Why the memory of the IIR filters fades although every operation rounds.        *)
(*                                                                                 *)
(* Two lanes of a polyphase half-band filter, first order all-pass sections        *)
(*      y[n] = c * (x[n] - y[n-1]) + x[n-1]                                        *)
(* in integer arithmetic on a grid of Unit per 1.0.  During the sound phase any    *)
(* input and any rounding error of one grid step may occur; during silence         *)
(* products are rounded towards zero.  With an odd number of coefficients the      *)
(* vectorised filter has a padding lane: Pad = "bypass" delays its input, Pad =    *)
(* "unit" is an all-pass section with coefficient 1 (what the code did before the  *)
(* repair): there every rounding error survives forever.                           *)
EXTENDS Integers
CONSTANTS Num, Den,     \* coefficient of the real lane
          Unit, Sound, Fade, Pad
VARIABLES x1, y1, z1, k, quiet
vars == <<x1, y1, z1, k, quiet>>
Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Lane(c, d, x, px, py, e) == Trunc(c * (x - py), d) + px + e
PadLane(x, e) == IF Pad = "bypass" THEN x1 ELSE Lane(1, 1, x, x1, z1, e)
Init == x1 = 0 /\ y1 = 0 /\ z1 = 0 /\ k = 0 /\ quiet = 0
Step(x, e, f) == x1' = x /\ y1' = Lane(Num, Den, x, x1, y1, e) /\ z1' = PadLane(x, f)
Hear == /\ k < Sound /\ quiet = 0 /\ k' = k + 1 /\ quiet' = 0
        /\ \E x \in {-Unit, 0, Unit}, e, f \in {-1, 0, 1} : Step(x, e, f)
Silence == quiet < Fade + 2 /\ quiet' = quiet + 1 /\ k' = Sound /\ Step(0, 0, 0)
Rest == quiet = Fade + 2 /\ UNCHANGED vars
Next == Hear \/ Silence \/ Rest
Spec == Init /\ [][Next]_vars
Faded == quiet >= Fade => y1 = 0 /\ z1 = 0
=============================================================================
