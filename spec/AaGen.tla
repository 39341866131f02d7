------------------------------- MODULE AaGen --------------------------------
(* Generates histories of AlignedArray operations (TLC -simulate).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES arr, log, turn
Par == ndJsonDeserialize(IOEnv.GEN)[1]
Kinds == Par.kinds
\* sizes are classes here (the binder picks sizes); index classes 1: first, 2: last, 3: any
INSTANCE AlignedArray WITH Ids <- 0..3
Log(x) == log' = Append(log, x)
Init == AInit /\ log = <<>> /\ turn = 0
Live == {i \in 0..3 : arr[i].live}
Dead4 == {i \in 0..3 : ~arr[i].live}
Can(k) == CASE k = "new" -> Dead4 # {} [] k = "vec" -> Dead4 # {} [] k = "copy" -> Live # {} /\ Dead4 # {}
            [] k = "assign" -> Live # {} [] k = "set" -> \E i \in Live : arr[i].v # <<>> [] k = "del" -> Live # {}
Draw == turn = 0 /\ Len(log) < Par.depth /\ (\E q \in 1..Len(Kinds) : Can(Kinds[q]) /\ turn' = q) /\ UNCHANGED <<arr, log>>
Do == /\ turn > 0 /\ turn' = 0
      /\ LET k == Kinds[turn] IN
         CASE k = "new" -> \E i \in Dead4, n \in 0..9 : NewN(i, n, 0) /\ Log(<<"new", i, n>>)
           [] k = "vec" -> \E i \in Dead4, n \in 0..9 : NewVec(i, [q \in 1..n |-> 0]) /\ Log(<<"vec", i, n>>)
           [] k = "copy" -> \E i \in Live, j \in Dead4 : Copy(i, j) /\ Log(<<"copy", i, j>>)
           [] k = "assign" -> \E i \in Live, j \in Live : Assign(i, j) /\ Log(<<"assign", i, j>>)
           [] k = "set" -> \E i \in Live, p \in 1..3 : arr[i].v # <<>> /\ Set(i, 1, 0) /\ Log(<<"set", i, p>>)
           [] k = "del" -> \E i \in Live : Del(i) /\ Log(<<"del", i>>)
Complete == turn = 0 /\ Len(log) = Par.depth /\ turn' = -1 /\ UNCHANGED <<arr, log>>
Next == Draw \/ Do \/ Complete
Spec == Init /\ [][Next]_<<arr, log, turn>>
Emit == turn = -1 => PrintT("GEN " \o ToJson(log))
=============================================================================
