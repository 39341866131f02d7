------------------------------ MODULE HiirGen -------------------------------
(* Generates call histories for two half-band filter objects (TLC -simulate):      *)
(* single samples, blocks, band splits, silencing, copies, new coefficients.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES log, turn
Par == ndJsonDeserialize(IOEnv.GEN)[1]
Log(x) == log' = Append(log, x)
Init == log = <<>> /\ turn = 0
Draw == turn = 0 /\ Len(log) < Par.depth /\ turn' \in 1..Len(Par.kinds) /\ UNCHANGED log
Do == /\ turn > 0 /\ turn' = 0
      /\ LET k == Par.kinds[turn] IN
         \E o \in 0..1 :
         CASE k = "sample" -> Log(<<k, o>>)
           [] k = "block" -> \E n \in 1..8, w \in 0..9 : Log(<<k, o, n, w>>)
           [] k = "ssplit" -> Log(<<k, o>>)
           [] k = "split" -> \E n \in 1..8, w \in 0..9 : Log(<<k, o, n, w>>)
           [] k = "clear" -> Log(<<k, o>>)
           [] k = "copy" -> \E w \in 0..1 : Log(<<k, o, 1 - o, w>>)
           [] k = "coefs" -> Log(<<k, o>>)
Complete == turn = 0 /\ Len(log) = Par.depth /\ turn' = -1 /\ UNCHANGED log
Next == Draw \/ Do \/ Complete
Spec == Init /\ [][Next]_<<log, turn>>
Emit == turn = -1 => PrintT("GEN " \o ToJson(log))
=============================================================================
