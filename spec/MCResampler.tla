---------------------------- MODULE MCResampler -----------------------------
(* The contract Resampler against a reference implementation that keeps real state: *)
(* a history per object, heap blocks per object.  The implementation performs a      *)
(* call (Call), then the contract has to accept what was observed (Judge); if it      *)
(* does not, there is no successor and TLC reports a deadlock.                        *)
(*   Mutant = "none": every execution is accepted (no deadlock).                     *)
(*   other mutants: a defect of the kind the contract is there to exclude; TLC has    *)
(*   to find the execution the contract rejects (the contract is not vacuous).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mutant, Objs
VARIABLES obj, heap, hist, shared, blocks, pend
vars == <<obj, heap, hist, shared, blocks, pend>>
Up == [m |-> "U", r |-> 2, p |-> 1, s |-> 0, f |-> "F"]
Down == [m |-> "D", r |-> 2, p |-> 1, s |-> 0, f |-> "F"]
Cfgs == {Up, Down}
Streams == <<<<1, 2, 4, 3>>, <<5, 0, 6, 7>>>>
Len4 == 4
\* the signal a configuration yields: what a fresh object does, as a function of the stream alone
In(s, k) == IF k < 1 THEN 0 ELSE Streams[s][k]
RespOf(c, s) == IF c.m = "U" THEN [j \in 1..(2 * Len4) |-> IF j % 2 = 1 THEN In(s, (j + 1) \div 2 - 1) + In(s, (j + 1) \div 2) ELSE In(s, j \div 2)]
                ELSE [j \in 1..(Len4 \div 2) |-> In(s, 2 * j - 2) + In(s, 2 * j - 1) + 2 * In(s, 2 * j)]
R == INSTANCE Resampler WITH Objects <- Objs, Resp <- RespOf, Upto <- LAMBDA s, j : j, Close <- LAMBDA s, a, b : a = b,
                             Slack <- LAMBDA c, s : <<>>, Determined <- LAMBDA s : TRUE, Aspects <- {"out", "foot", "clean", "diag", "heap", "query", "qconst", "fpenv"}
\* replaces Forget of the contract (see the .cfg): the filters above remember one sample
SmallForget(c) == IF c.m = "U" THEN 1 ELSE 2

\* ---------------- reference implementation
H(o) == IF Mutant = "shared" THEN shared ELSE hist[o]
RECURSIVE Run(_, _, _)
Run(m, h, x) == IF x = <<>> THEN <<>>
                ELSE IF m = "U" THEN <<h + x[1], x[1]>> \o Run(m, x[1], Tail(x))
                ELSE <<h + x[1] + 2 * x[2]>> \o Run(m, x[2], Tail(Tail(x)))
Ob == [y |-> <<>>, w |-> 0, x |-> 0, nn |-> 0, err |-> 0, na |-> 0, nf |-> 0, lb |-> 0, fe |-> 0]
Set(o, v) == /\ hist' = [hist EXCEPT ![o] = v]
             /\ shared' = IF Mutant = "shared" THEN v ELSE 0
CallNew(o, c) == /\ blocks[o] = -1
                 /\ Set(o, 0) /\ blocks' = [blocks EXCEPT ![o] = 2]
                 /\ pend' = [k |-> "new", o |-> o, c |-> c, ob |-> [Ob EXCEPT !.lb = 2]]
CallProcess(o, s, off, n) ==
  LET c == obj[o].cfg
      x == SubSeq(Streams[s], off + 1, off + n)
      y == Run(c.m, H(o), x)
      last == IF n = 0 THEN H(o)
              ELSE IF Mutant = "short" /\ n = 1 THEN H(o)            \* a block of one sample does not enter the history
              ELSE IF Mutant = "empty" THEN x[n] ELSE x[n]
      h2 == IF Mutant = "empty" /\ n = 0 THEN 0 ELSE last            \* an empty block clears the history
  IN /\ obj[o].st = "live"
     /\ off = 0 \/ (obj[o].sid = s /\ obj[o].pos = off)
     /\ off + n <= Len4 /\ (c.m = "D" => n % 2 = 0)
     /\ Set(o, h2) /\ UNCHANGED blocks
     /\ pend' = [k |-> "p", o |-> o, s |-> s, off |-> off, n |-> n,
                 ob |-> [Ob EXCEPT !.y = y, !.w = Len(y), !.na = IF Mutant = "alloc" /\ n > 2 THEN 1 ELSE 0,
                                   !.nf = IF Mutant = "alloc" /\ n > 2 THEN 1 ELSE 0]]
CallRefuse(o, n) ==
  /\ obj[o].st = "live" /\ obj[o].cfg.m = "D" /\ n % 2 = 1
  /\ (IF Mutant = "refuse" THEN Set(o, 9) ELSE Set(o, H(o))) /\ UNCHANGED blocks
  /\ pend' = [k |-> "odd", o |-> o, n |-> n, ob |-> [Ob EXCEPT !.err = 1]]
CallReset(o) == /\ obj[o].st = "live"
                /\ Set(o, IF Mutant = "reset" THEN H(o) ELSE 0) /\ UNCHANGED blocks
                /\ pend' = [k |-> "r", o |-> o, ob |-> Ob]
CallQuery(o) == /\ obj[o].st = "live"
                /\ Set(o, IF Mutant = "query" THEN 0 ELSE H(o)) /\ UNCHANGED blocks
                /\ pend' = [k |-> "q", o |-> o, ob |-> Ob, ans |-> IF Mutant = "delay" THEN <<H(o)>> ELSE <<7>>]
CallMoveC(a, b) == /\ obj[a].st = "live" /\ blocks[b] = -1
                   /\ Set(b, IF Mutant = "move" THEN 0 ELSE H(a))
                   /\ blocks' = [blocks EXCEPT ![a] = 0, ![b] = blocks[a]]
                   /\ pend' = [k |-> "mv", o |-> a, b |-> b, ob |-> Ob]
CallMoveA(a, b) == /\ obj[a].st = "live" /\ obj[b].st \in {"live", "moved"} /\ a # b
                   /\ Set(b, H(a))
                   /\ blocks' = [blocks EXCEPT ![a] = 0, ![b] = blocks[a]]
                   \* what the target owned before is released
                   /\ pend' = [k |-> "ma", o |-> a, b |-> b, ob |-> [Ob EXCEPT !.lb = IF Mutant = "leak" THEN 0 ELSE -blocks[b]]]
CallDestroy(o) == /\ blocks[o] >= 0
                  /\ Set(o, 0) /\ blocks' = [blocks EXCEPT ![o] = -1]
                  /\ pend' = [k |-> "del", o |-> o, ob |-> [Ob EXCEPT !.lb = -blocks[o]]]
Call == /\ pend.k = "none" /\ UNCHANGED <<obj, heap>>
        /\ \E o \in Objs :
             \/ \E c \in Cfgs : CallNew(o, c)
             \/ \E s \in 1..2, off \in 0..Len4, n \in 0..Len4 : CallProcess(o, s, off, n)
             \/ \E n \in {1, 3} : CallRefuse(o, n)
             \/ CallReset(o) \/ CallQuery(o) \/ CallDestroy(o)
             \/ \E b \in Objs : b # o /\ (CallMoveC(o, b) \/ CallMoveA(o, b))
Judge == /\ pend.k # "none" /\ pend' = [k |-> "none"] /\ UNCHANGED <<hist, shared, blocks>>
         /\ \/ pend.k = "new" /\ R!New(pend.o, pend.c, pend.ob)
            \/ pend.k = "p" /\ R!Process(pend.o, pend.s, pend.off, pend.n, pend.ob)
            \/ pend.k = "odd" /\ R!Refuse(pend.o, pend.n, pend.ob)
            \/ pend.k = "r" /\ R!Reset(pend.o, pend.ob)
            \/ pend.k = "q" /\ R!Query(pend.o, pend.ob, pend.ans, TRUE)
            \/ pend.k = "mv" /\ R!MoveConstruct(pend.o, pend.b, pend.ob)
            \/ pend.k = "ma" /\ R!MoveAssign(pend.o, pend.b, pend.ob)
            \/ pend.k = "del" /\ R!Destroy(pend.o, pend.ob)
Init == R!RInit /\ hist = [o \in Objs |-> 0] /\ shared = 0 /\ blocks = [o \in Objs |-> -1] /\ pend = [k |-> "none"]
Next == Call \/ Judge
Spec == Init /\ [][Next]_vars

\* ---------------- what the contract implies about the implementation
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET o == CHOOSE o \in S : TRUE IN f[o] + Sum(f, S \ {o})
Owned == Sum([o \in Objs |-> IF blocks[o] > 0 THEN blocks[o] ELSE 0], Objs)
HeapExact == pend.k = "none" => heap = Owned
\* the history is a function of the contract state: nothing else is remembered
Remembers == pend.k = "none" => \A o \in Objs : obj[o].st = "live" => hist[o] = (IF obj[o].pos = 0 THEN hist[o] ELSE Streams[obj[o].sid][obj[o].pos])
\* a call on one object changes no other one
Frame == [][\A o \in Objs : (pend.k # "none" /\ pend.o # o /\ ("b" \notin DOMAIN pend \/ pend.b # o)) => obj'[o] = obj[o]]_vars
=============================================================================
