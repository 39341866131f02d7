------------------------------- MODULE Bisect -------------------------------
(* The design by group delay: bisection of the transition band, on a grid 0..M.     *)
(* The group delay is a strictly monotonic function of the transition band, the      *)
(* attenuation grows with the transition band.  All functions, targets, precisions   *)
(* and attenuation limits of the grid are explored.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, V, MaxIt,
          Mutant     \* "none" | "conv" (converged and not converged exchanged) | "half" (wrong half kept) | "atten" (limits not checked) | "ends" (target need not lie between the delays of the limits)
VARIABLES gd, target, prec, alb, aub, lb, ub, lbg, rs, it, ret
vars == <<gd, target, prec, alb, aub, lb, ub, lbg, rs, it, ret>>
Abs(a) == IF a < 0 THEN -a ELSE a
Monotone == {f \in [0..M -> 0..V] : (\A i \in 0..(M - 1) : f[i] < f[i + 1]) \/ (\A i \in 0..(M - 1) : f[i] > f[i + 1])}
Atten(t) == t
Init == /\ gd \in Monotone /\ target \in 0..V /\ prec \in 0..1 /\ alb \in {0, 2, 3} /\ aub \in {2, M} /\ alb <= aub
        /\ lb = 0 /\ ub = M /\ lbg = gd[0] /\ rs = -1 /\ it = 0
        /\ ret = IF Mutant # "ends" /\ (gd[M] - target) * (target - gd[0]) <= 0 THEN "GD_TBW" ELSE "run"
Conv(g) == IF Mutant = "conv" THEN Abs(g - target) <= prec ELSE Abs(g - target) > prec      \* named conv_flag in the code: not yet converged
Step == /\ ret = "run"
        /\ LET r == (ub + lb) \div 2 g == gd[r]
               upper == IF Mutant = "half" THEN (target - lbg) * (target - g) > 0 ELSE (target - lbg) * (target - g) < 0
               go == Conv(g) IN
           /\ rs' = r
           /\ IF upper THEN ub' = r /\ UNCHANGED <<lb, lbg>> ELSE lb' = r /\ lbg' = g /\ UNCHANGED ub
           /\ it' = it + 1
           /\ ret' = IF go /\ it' < MaxIt THEN "run"
                     ELSE IF go THEN "CONV"
                     ELSE IF Mutant # "atten" /\ (Atten(r) < alb \/ Atten(r) > aub) THEN "ATTEN" ELSE "OK"
        /\ UNCHANGED <<gd, target, prec, alb, aub>>
Stop == ret # "run" /\ UNCHANGED vars
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
\* success means that everything that was requested holds
Sound == ret = "OK" => Abs(gd[rs] - target) <= prec /\ alb <= Atten(rs) /\ Atten(rs) <= aub /\ rs \in 0..M
\* the delay stays between those of the limits of the interval
Bracket == ret = "run" => (gd[ub] - target) * (target - gd[lb]) >= 0 /\ lbg = gd[lb]
\* failures are justified
Justified == /\ ret = "GD_TBW" => (gd[M] - target) * (target - gd[0]) <= 0
             /\ ret = "CONV" => \A t \in 0..(M - 1) : Abs(gd[t] - target) > prec
             /\ ret = "ATTEN" => Abs(gd[rs] - target) <= prec /\ ~(alb <= Atten(rs) /\ Atten(rs) <= aub)
Terminates == <>(ret # "run")
=============================================================================
