----------------------------- MODULE FirUpInd -----------------------------
(* The factor 2 FIR upsampling stage for every filter order and every block    *)
(* size: the same actions as FirUp, with the history buffer described by two   *)
(* numbers (cells 0..hv-1 are valid, cell k holds stream position k - ho).     *)
(* Apalache proves Inv inductive and Inv => Safe over the integers, TLC checks *)
(* that FirUp refines this module.                                             *)
EXTENDS Integers
VARIABLES
    \* @type: Int;
    ORDER,
    \* @type: Bool;
    SSE,
    \* @type: Str;
    pc,
    \* @type: Int;
    n,
    \* @type: Int;
    al,
    \* @type: Int;
    i,
    \* @type: Str;
    seg,
    \* @type: Int;
    done,
    \* @type: Int;
    hv,
    \* @type: Int;
    ho
ivars == <<ORDER, SSE, pc, n, al, i, seg, done, hv, ho>>
Top == (ORDER + 6) - ((ORDER + 6) % 4)            \* samples read per group of 4 outputs
HTodo == IF n < ORDER - 1 THEN n ELSE ORDER - 1
Limit == IF seg = "hist" THEN HTodo ELSE n - HTodo
Base  == IF seg = "hist" THEN 0 ELSE HTodo
Init == /\ ORDER \in Int /\ ORDER >= 2 /\ ORDER % 2 = 0 /\ SSE \in BOOLEAN
        /\ pc = "idle" /\ n = 0 /\ al = 0 /\ i = 0 /\ seg = "hist" /\ done = 0
        /\ hv = ORDER - 1 /\ ho = ORDER - 1
Keep == UNCHANGED <<ORDER, SSE>>
Call == /\ pc = "idle" /\ n' \in Nat /\ al' \in 0..3 /\ done' = 0 /\ pc' = "copyin"
        /\ Keep /\ UNCHANGED <<i, seg, hv, ho>>
CopyIn == /\ pc = "copyin" /\ pc' = "vec" /\ seg' = "hist" /\ i' = 0
          /\ hv' = ORDER - 1 + HTodo /\ Keep /\ UNCHANGED <<n, al, done, ho>>
One == i' = i + 1 /\ done' = done + 1 /\ Keep /\ UNCHANGED <<pc, n, al, seg, hv, ho>>
To(p) == pc' = p /\ Keep /\ UNCHANGED <<n, al, i, seg, done, hv, ho>>
DoPrologue == pc = "prologue" /\ SSE /\ (al + i) % 4 # 0 /\ i < Limit
DoVec      == pc = "vec" /\ SSE /\ i + 6 < Limit
DoRest     == pc = "rest" /\ i < Limit
DoSwitch   == pc = "rest" /\ i >= Limit /\ seg = "hist" /\ n > HTodo
DoRebuild  == pc = "rebuild" /\ done = n
Next == \/ Call
        \/ CopyIn
        \/ DoPrologue /\ One
        \/ pc = "prologue" /\ ~DoPrologue /\ To("vec")
        \/ DoVec /\ i' = i + 4 /\ done' = done + 4 /\ Keep /\ UNCHANGED <<pc, n, al, seg, hv, ho>>
        \/ pc = "vec" /\ ~DoVec /\ To("rest")
        \/ DoRest /\ One
        \/ DoSwitch /\ pc' = "prologue" /\ seg' = "in" /\ i' = 0 /\ Keep /\ UNCHANGED <<n, al, done, hv, ho>>
        \/ pc = "rest" /\ i >= Limit /\ ~DoSwitch /\ To("rebuild")
        \/ DoRebuild /\ pc' = "idle" /\ n' = 0 /\ al' = 0 /\ i' = 0 /\ seg' = "hist" /\ done' = 0
           /\ hv' = ORDER - 1 /\ ho' = (IF n > HTodo THEN HTodo ELSE ho) /\ Keep
Spec == Init /\ [][Next]_ivars
-----------------------------------------------------------------------------
Inv == /\ ORDER \in Int /\ ORDER >= 2 /\ ORDER % 2 = 0 /\ SSE \in BOOLEAN
       /\ pc \in {"idle", "copyin", "prologue", "vec", "rest", "rebuild"}
       /\ seg \in {"hist", "in"}
       /\ n \in Int /\ n >= 0 /\ al \in 0..3 /\ i \in Int /\ i >= 0 /\ done \in Int /\ hv \in Int /\ ho \in Int
       /\ ho = ORDER - 1
       /\ pc \in {"idle", "copyin"} => hv = ORDER - 1 /\ done = 0 /\ seg = "hist"
       /\ pc \notin {"idle", "copyin"} => hv = ORDER - 1 + HTodo
       /\ pc \in {"prologue", "vec", "rest"} => i <= Limit /\ done = Base + i /\ (seg = "in" => n > HTodo)
       /\ pc = "prologue" => seg = "in"
       /\ pc = "vec" /\ seg = "in" /\ SSE /\ i < Limit => (al + i) % 4 = 0
       /\ pc = "rebuild" => done = n
\* cell k of the region of this pass holds stream position k - ho (history) or k (input)
Valid(k) == IF seg = "hist" THEN k >= 0 /\ k < hv ELSE k >= 0 /\ k < n
Off == IF seg = "hist" THEN ho ELSE 0
InMem(k) == IF seg = "hist" THEN k >= 0 /\ k < 2 * ORDER ELSE k >= 0 /\ k < n
\* output number done (+3) has the window of cells i..i+ORDER-1 (+3): valid cells, in memory, the right positions, in range
WinOK(w) == /\ Valid(i) /\ Valid(i + w - 1 + ORDER - 1) /\ InMem(i) /\ InMem(i + w - 1 + ORDER - 1)
            /\ i - Off = done - (ORDER - 1)
            /\ done >= 0 /\ done + w - 1 < n
Safe == /\ DoPrologue => WinOK(1)
        /\ DoRest => WinOK(1)
        /\ DoVec => WinOK(4) /\ InMem(i + Top - 1) /\ (seg = "in" => (al + i) % 4 = 0)
        /\ pc = "copyin" => 2 * ORDER > ORDER - 1 + HTodo - 1 /\ HTodo <= n       \* copied cells exist in buffer and input
        \* the new history: cells 0..ORDER-2 from the input or from the old history
        /\ pc = "rebuild" => /\ done = n
                             /\ IF n > HTodo THEN n - HTodo >= 0 /\ n - HTodo + ORDER - 2 <= n - 1 /\ HTodo = ORDER - 1
                                ELSE n + ORDER - 2 < hv
        /\ pc = "idle" => hv = ORDER - 1 /\ ho = ORDER - 1
=============================================================================
