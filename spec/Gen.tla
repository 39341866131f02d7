-------------------------------- MODULE Gen --------------------------------
(* Generates call histories from the Resampler specification (TLC -simulate).   *)
(* Block sizes are class numbers, configurations slot numbers; the binder maps  *)
(* both to concrete values.  A finished history is printed as one JSON array.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES obj, heap, log,
          turn      \* index of the drawn action kind, 0: none, -1: history complete
Par == ndJsonDeserialize(IOEnv.GEN)[1]
NObj == Par.nobj       \* objects 0..NObj-1
NSlot == Par.nslot     \* configuration slots
NCls == Par.ncls       \* block size classes
Depth == Par.depth
Kinds == Par.kinds     \* sequence of action kinds; repetition is weight
\* slots stand for supported configurations; slot number is kept in the otherwise unused precision field
SlotCfg(k) == [m |-> "U", r |-> 1, p |-> k, s |-> 0, f |-> "F"]
INSTANCE Resampler WITH Objects <- 0..(NObj - 1), Resp <- LAMBDA c, s : <<>>, Upto <- LAMBDA s, j : j,
                        Close <- LAMBDA s, a, b : TRUE, Slack <- LAMBDA c, s : <<>>, Determined <- LAMBDA s : TRUE, Aspects <- {}
O == [err |-> 0, na |-> 0, nf |-> 0, lb |-> 0, w |-> 0, x |-> 0, y |-> <<>>]
Log(x) == log' = Append(log, x)
Live == {o \in 0..(NObj - 1) : obj[o].st = "live"}
GNew == \E o \in 0..(NObj - 1), k \in 0..(NSlot - 1) : New(o, SlotCfg(k), O) /\ Log(<<"new", o, k>>)
\* continue the current stream, or start one (1: ordinary, 2: not finite)
GProcess == \E o \in Live, n \in 0..(NCls - 1) :
              LET sid == IF obj[o].pos = 0 THEN 1 ELSE obj[o].sid
              IN Process(o, sid, obj[o].pos, n + 1, O) /\ Log(<<"p", o, sid, n>>)
GPoison == \E o \in Live, n \in 0..(NCls - 1) : obj[o].pos = 0 /\ Process(o, 2, 0, n + 1, O) /\ Log(<<"p", o, 2, n>>)
\* change to a new stream without reset
GSwitch == \E o \in Live, n \in 0..(NCls - 1) : obj[o].pos > 0 /\ obj[o].sid # 1
              /\ Process(o, 1, 0, n + 1, O) /\ Log(<<"p", o, 1, n>>)
GReset == \E o \in Live : Reset(o, O) /\ Log(<<"r", o>>)
GQuery == \E o \in Live : Query(o, O, <<>>, TRUE) /\ Log(<<"q", o>>)
GMoveC == \E a \in Live, b \in 0..(NObj - 1) : MoveConstruct(a, b, O) /\ Log(<<"mv", a, b>>)
GMoveA == \E a \in Live, b \in 0..(NObj - 1) : MoveAssign(a, b, O) /\ Log(<<"ma", a, b>>)
GDestroy == \E o \in 0..(NObj - 1) : Destroy(o, O) /\ Log(<<"del", o>>)
\* one kind of action is drawn first, so that rare kinds are not drowned by the many block sizes
Can(k) == CASE k = "new" -> \E o \in 0..(NObj - 1) : obj[o].st = "none"
            [] k \in {"p", "r", "q"} -> Live # {}
            [] k = "poison" -> \E o \in Live : obj[o].pos = 0
            [] k = "switch" -> \E o \in Live : obj[o].pos > 0 /\ obj[o].sid # 1
            [] k = "mv" -> Live # {} /\ \E o \in 0..(NObj - 1) : obj[o].st = "none"
            [] k = "ma" -> \E a \in Live, b \in 0..(NObj - 1) : a # b /\ obj[b].st \in {"live", "moved"}
            [] k = "del" -> \E o \in 0..(NObj - 1) : obj[o].st # "none"
\* init = 1: object 0 is there from the beginning
Init == /\ turn = 0
        /\ IF Par.init = 1 THEN heap = 0 /\ obj = [o \in 0..(NObj - 1) |-> IF o = 0 THEN Fresh(SlotCfg(0)) ELSE None] /\ log = << <<"new", 0, 0>> >>
                           ELSE RInit /\ log = <<>>
Draw == turn = 0 /\ Len(log) < Depth /\ (\E q \in 1..Len(Kinds) : Can(Kinds[q]) /\ turn' = q) /\ UNCHANGED <<obj, heap, log>>
Do == /\ turn > 0 /\ turn' = 0
      /\ CASE Kinds[turn] = "new" -> GNew [] Kinds[turn] = "p" -> GProcess [] Kinds[turn] = "poison" -> GPoison
           [] Kinds[turn] = "switch" -> GSwitch [] Kinds[turn] = "r" -> GReset [] Kinds[turn] = "q" -> GQuery
           [] Kinds[turn] = "mv" -> GMoveC [] Kinds[turn] = "ma" -> GMoveA [] Kinds[turn] = "del" -> GDestroy
Complete == turn = 0 /\ Len(log) = Depth /\ turn' = -1 /\ UNCHANGED <<obj, heap, log>>
Next == Draw \/ Do \/ Complete
Spec == Init /\ [][Next]_<<obj, heap, log, turn>>
Emit == turn = -1 => PrintT("GEN " \o ToJson(log))
=============================================================================
