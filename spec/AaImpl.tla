------------------------------- MODULE AaImpl -------------------------------
(* The implementation of AlignedArray: every array owns one block of memory.       *)
(* Assignment is copy and swap.  The model keeps the life cycle of every element    *)
(* and block and refines AlignedArray.                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids, Blocks, NMax, Values, Default,
          CopyMode           \* "deep": as in the code; "shallow": copies the pointer (before the repair)
VARIABLES ptr, mem, bad
vars == <<ptr, mem, bad>>
\* mem[b]: "free" or the sequence of elements; a block that was freed can be allocated again
Null == -1
Init == ptr = [i \in Ids |-> Null] /\ mem = [b \in Blocks |-> [st |-> "free", v |-> <<>>]] /\ bad = FALSE
FreeBlock == CHOOSE b \in Blocks : mem[b].st = "free"
CanAlloc == \E b \in Blocks : mem[b].st = "free"
Live(i) == ptr[i] # Null
Build(i, v) == /\ ~Live(i) /\ CanAlloc
               /\ mem' = [mem EXCEPT ![FreeBlock] = [st |-> "used", v |-> v]]
               /\ ptr' = [ptr EXCEPT ![i] = FreeBlock]
               /\ UNCHANGED bad
NewN(i) == \E n \in 0..NMax : Build(i, [k \in 1..n |-> Default])
NewVec(i) == \E n \in 0..NMax : \E v \in [1..n -> Values] : Build(i, v)
Copy(i, j) == /\ Live(i) /\ ~Live(j)
              /\ IF CopyMode = "deep" THEN Build(j, mem[ptr[i]].v)
                 ELSE ptr' = [ptr EXCEPT ![j] = ptr[i]] /\ UNCHANGED <<mem, bad>>
Release(b) == [st |-> "free", v |-> <<>>]
Assign(i, j) == /\ Live(i) /\ Live(j)
                /\ IF i = j THEN UNCHANGED vars
                   ELSE IF CopyMode = "deep"
                   THEN /\ CanAlloc       \* copy, swap, destroy the old contents
                        /\ mem' = [mem EXCEPT ![FreeBlock] = mem[ptr[i]], ![ptr[j]] = Release(ptr[j])]
                        /\ ptr' = [ptr EXCEPT ![j] = FreeBlock] /\ UNCHANGED bad
                   ELSE ptr' = [ptr EXCEPT ![j] = ptr[i]] /\ UNCHANGED <<mem, bad>>
Set(i) == /\ Live(i)
          /\ \E k \in 1..Len(mem[ptr[i]].v), x \in Values : mem' = [mem EXCEPT ![ptr[i]].v[k] = x]
          /\ UNCHANGED <<ptr, bad>>
Del(i) == /\ Live(i)
          /\ bad' = (bad \/ mem[ptr[i]].st = "free")      \* double free
          /\ mem' = [mem EXCEPT ![ptr[i]] = Release(ptr[i])]
          /\ ptr' = [ptr EXCEPT ![i] = Null]
Next == \E i \in Ids : \/ NewN(i) \/ NewVec(i) \/ Set(i) \/ Del(i) \/ \E j \in Ids : Copy(i, j) \/ Assign(i, j)
Spec == Init /\ [][Next]_vars
NoSharing == \A i, j \in Ids : i # j /\ Live(i) /\ Live(j) => ptr[i] # ptr[j]
NoUseAfterFree == \A i \in Ids : Live(i) => mem[ptr[i]].st = "used"
NoLeak == \A b \in Blocks : mem[b].st = "used" => \E i \in Ids : ptr[i] = b
OnceOnly == ~bad
\* refinement of the value specification
AArr == [i \in Ids |-> IF Live(i) THEN [live |-> TRUE, v |-> mem[ptr[i]].v] ELSE [live |-> FALSE, v |-> <<>>]]
A == INSTANCE AlignedArray WITH arr <- AArr
ANext == \E i \in Ids : \/ \E n \in 0..NMax : A!NewN(i, n, Default)
                        \/ \E n \in 0..NMax : \E v \in [1..n -> Values] : A!NewVec(i, v)
                        \/ \E k \in 1..NMax, x \in Values : A!Set(i, k, x)
                        \/ A!Del(i)
                        \/ \E j \in Ids : A!Copy(i, j) \/ A!Assign(i, j)
Refines == A!AInit /\ [][ANext]_AArr
=============================================================================
