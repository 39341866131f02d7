----------------------------- MODULE Instances ------------------------------
(* Calls on different objects that overlap in time.                               *)
(*                                                                                *)
(* A call of a multi-stage resampler works in chunks: the first stage fills a     *)
(* scratch buffer, the next one reads it while writing the output.  A thread can  *)
(* lose the processor at Stops points inside its call.  With scratch memory that  *)
(* belongs to the call (Scratch = "private", as in the code) every interleaving   *)
(* gives every call its own data; with "shared" scratch it does not.              *)
(*                                                                                *)
(* Every maximal behaviour is a schedule; it is printed and replayed on the real  *)
(* code, where the threads are stopped inside process_block by page faults.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, Stops, Scratch, EmitOn
Threads == 0..(NT - 1)
Steps == Stops + 1
VARIABLES pc, mem, bad, sched
vars == <<pc, mem, bad, sched>>
Loc(t) == IF Scratch = "private" THEN t ELSE 0
Init == pc = [t \in Threads |-> 0] /\ mem = [q \in Threads |-> <<>>] /\ bad = FALSE /\ sched = <<>>
\* between two stops: read what the previous segment left in the scratch buffer, then refill it
Run(t) == /\ pc[t] < Steps
          /\ bad' = (bad \/ (pc[t] > 0 /\ mem[Loc(t)] # <<t, pc[t] - 1>>))
          /\ mem' = [mem EXCEPT ![Loc(t)] = <<t, pc[t]>>]
          /\ pc' = [pc EXCEPT ![t] = @ + 1]
          /\ sched' = Append(sched, t)
AllDone == \A t \in Threads : pc[t] = Steps
Next == (\E t \in Threads : Run(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
OwnData == ~bad
Emit == (AllDone /\ EmitOn) => PrintT(<<"SCHED", sched>>)
=============================================================================
