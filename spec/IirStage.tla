------------------------------ MODULE IirStage ------------------------------
(* The two memory layouts of the implementation refine the reference filter, for  *)
(* every history: one chain of memories shared by neighbouring sections (scalar    *)
(* code), and stages of two lanes with the lanes swapped (vector code; with an odd  *)
(* number of coefficients the last stage has a lane without a section).  All        *)
(* operations are +, - and *, so they are checked over the integers modulo P,       *)
(* where the state space is finite: every reachable state, every input.             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS P, NCs, Recoef, Layout     \* Layout: "ok" | "lane" | "chain" | "clear" (mutants)
VARIABLES f, m, s
vars == <<f, m, s>>
Zp == 0..(P - 1)
Mod(a) == a % P
MulP(a, b) == Mod(a * b)
AddP(a, b) == Mod(a + b)
SubP(a, b) == Mod(a + P - b)
R == INSTANCE Hiir WITH Mul <- MulP, Add <- AddP, Sub <- SubP
NC == Len(f.c)
\* ---- scalar: memory m[0..NC+1]; m[i], i >= 2, is the previous output of section i-1, m[0], m[1] previous inputs
RECURSIVE Fpu(_, _, _, _)
Fpu(mem, rem, v0, v1) ==
  LET n == NC + 2 - rem IN
  IF rem >= 2 THEN
     LET t0 == AddP(MulP(SubP(v0, mem[n]), f.c[n - 1]), mem[n - 2])
         t1 == AddP(MulP(SubP(v1, mem[n + 1]), f.c[n]), mem[n - 1])
     IN Fpu([mem EXCEPT ![n - 2] = v0, ![n - 1] = v1], rem - 2, t0, t1)
  ELSE IF rem = 1 THEN
     LET t0 == AddP(MulP(SubP(v0, mem[n]), f.c[n - 1]), mem[IF Layout = "chain" THEN n - 1 ELSE n - 2])
     IN [mem |-> [mem EXCEPT ![n - 2] = v0, ![n - 1] = v1, ![n] = t0], a |-> t0, b |-> v1]
  ELSE [mem |-> [mem EXCEPT ![n - 2] = v0, ![n - 1] = v1], a |-> v0, b |-> v1]
\* ---- vector: stage 0 holds the inputs; lane 0 belongs to branch 1, lane 1 to branch 0
Stages == (NC + 1) \div 2
LaneCoef(k, lane) == LET i == 2 * (k - 1) + (2 - lane) IN IF i <= NC THEN f.c[i] ELSE 1
RECURSIVE Sse(_, _, _)
Sse(mem, k, x) ==
  IF k > Stages THEN
     LET y == IF NC % 2 = 1 /\ Layout # "lane" THEN [x EXCEPT ![0] = mem[Stages - 1][0]] ELSE x
     IN [mem |-> [mem EXCEPT ![Stages] = y], a |-> y[1], b |-> y[0]]
  ELSE Sse([mem EXCEPT ![k - 1] = x], k + 1,
           [l \in 0..1 |-> AddP(MulP(SubP(x[l], mem[k][l]), IF Layout = "lane" /\ 2 * k - l > NC THEN 0 ELSE LaneCoef(k, l)), mem[k - 1][l])])
Init == \E n \in NCs : \E c \in [1..n -> Zp] :
          /\ f = R!Zero(c)
          /\ m = [i \in 0..(n + 1) |-> 0]
          /\ s = [k \in 0..((n + 1) \div 2) |-> [l \in 0..1 |-> 0]]
Step == \E a, b \in Zp :
          /\ f' = R!Both(f, a, b).f
          /\ m' = Fpu(m, NC, a, b).mem
          /\ s' = Sse(s, 1, [l \in 0..1 |-> IF l = 1 THEN a ELSE b]).mem
ClearAll == f' = R!Clear(f) /\ m' = [i \in DOMAIN m |-> IF Layout = "clear" /\ i = NC + 1 THEN m[i] ELSE 0]
            /\ s' = [k \in DOMAIN s |-> [l \in 0..1 |-> 0]]
SetCoefs == Recoef /\ (\E i \in 1..NC, v \in Zp : f' = [f EXCEPT !.c[i] = v]) /\ UNCHANGED <<m, s>>
Next == Step \/ ClearAll \/ SetCoefs
Spec == Init /\ [][Next]_vars
\* the outputs agree for every possible next input
Agree == \A a, b \in Zp :
           LET r == R!Both(f, a, b) p == Fpu(m, NC, a, b) q == Sse(s, 1, [l \in 0..1 |-> IF l = 1 THEN a ELSE b])
           IN r.a = p.a /\ r.b = p.b /\ r.a = q.a /\ r.b = q.b
\* the memories are those of the reference, only arranged differently
Layouts == /\ \A i \in 1..NC : m[i + 1] = f.y[i] /\ s[(i + 1) \div 2][i % 2] = f.y[i] /\ m[i - 1] = f.x[i]
=============================================================================
