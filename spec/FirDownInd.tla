---------------------------- MODULE FirDownInd ----------------------------
(* The factor 2 FIR downsampling stage for every filter order, every chunk     *)
(* size not below the order and every block size; see FirUpInd.                *)
EXTENDS Integers
VARIABLES
    \* @type: Int;
    ORDER,
    \* @type: Bool;
    SSE,
    \* @type: Int;
    bs,
    \* @type: Str;
    pc,
    \* @type: Int;
    left,
    \* @type: Int;
    m,
    \* @type: Int;
    blk,
    \* @type: Int;
    i,
    \* @type: Str;
    seg,
    \* @type: Int;
    done,
    \* @type: Int;
    pos,
    \* @type: Int;
    tot,
    \* @type: Int;
    hv,
    \* @type: Int;
    ho
ivars == <<ORDER, SSE, bs, pc, left, m, blk, i, seg, done, pos, tot, hv, ho>>
HD  == (ORDER \div 2) - 1
Top == (ORDER + 6) - ((ORDER + 6) % 4)
Min2(a, b) == IF a < b THEN a ELSE b
HTodo == Min2(m, ORDER - 1)
Limit == IF seg = "hist" THEN HTodo ELSE m - HTodo
Base  == IF seg = "hist" THEN 0 ELSE HTodo
Init == /\ ORDER \in Int /\ ORDER >= 2 /\ ORDER % 2 = 0 /\ SSE \in BOOLEAN /\ bs \in Int /\ bs >= ORDER
        /\ pc = "idle" /\ left = 0 /\ m = 0 /\ i = 0 /\ seg = "hist" /\ done = 0 /\ pos = 0 /\ tot = 0 /\ blk = 0
        /\ hv = ORDER - 1 /\ ho = ORDER - 1
Keep == UNCHANGED <<ORDER, SSE, bs>>
Call == /\ pc = "idle" /\ tot' \in Nat /\ left' = tot' /\ pos' = 0 /\ pc' = "chunk"
        /\ Keep /\ UNCHANGED <<m, blk, i, seg, done, hv, ho>>
Chunk == /\ pc = "chunk" /\ left > 0 /\ m' = Min2(left, bs) /\ left' = left - m' /\ blk' = m'
         /\ pc' = "copyin" /\ done' = 0 /\ i' = 0 /\ seg' = "hist" /\ Keep /\ UNCHANGED <<pos, tot, hv, ho>>
Return == /\ pc = "chunk" /\ left = 0 /\ pos = tot
          /\ pc' = "idle" /\ m' = 0 /\ blk' = 0 /\ i' = 0 /\ seg' = "hist" /\ done' = 0 /\ pos' = 0 /\ tot' = 0
          /\ Keep /\ UNCHANGED <<left, hv, ho>>
CopyIn == /\ pc = "copyin" /\ pc' = "vec" /\ hv' = ORDER - 1 + HTodo
          /\ Keep /\ UNCHANGED <<left, m, blk, i, seg, done, pos, tot, ho>>
To(p) == pc' = p /\ Keep /\ UNCHANGED <<left, m, blk, i, seg, done, pos, tot, hv, ho>>
DoVec    == pc = "vec" /\ SSE /\ i + 6 < Limit
DoRest   == pc = "rest" /\ i < Limit
DoSwitch == pc = "rest" /\ i >= Limit /\ seg = "hist" /\ m > HTodo
Next == \/ Call \/ Chunk \/ Return \/ CopyIn
        \/ DoVec /\ i' = i + 4 /\ done' = done + 4 /\ Keep /\ UNCHANGED <<pc, left, m, blk, seg, pos, tot, hv, ho>>
        \/ pc = "vec" /\ ~DoVec /\ To("rest")
        \/ DoRest /\ i' = i + 1 /\ done' = done + 1 /\ Keep /\ UNCHANGED <<pc, left, m, blk, seg, pos, tot, hv, ho>>
        \/ DoSwitch /\ pc' = "vec" /\ seg' = "in" /\ i' = 0 /\ Keep /\ UNCHANGED <<left, m, blk, done, pos, tot, hv, ho>>
        \/ pc = "rest" /\ i >= Limit /\ ~DoSwitch /\ To("rebuild")
        \/ pc = "rebuild" /\ done = m /\ pc' = "chunk" /\ pos' = pos + m
           /\ hv' = ORDER - 1 /\ ho' = (IF m > HTodo THEN HTodo ELSE ho)
           /\ Keep /\ UNCHANGED <<left, m, blk, i, seg, done, tot>>
Spec == Init /\ [][Next]_ivars
-----------------------------------------------------------------------------
Inv == /\ ORDER \in Int /\ ORDER >= 2 /\ ORDER % 2 = 0 /\ SSE \in BOOLEAN /\ bs \in Int /\ bs >= ORDER
       /\ pc \in {"idle", "chunk", "copyin", "vec", "rest", "rebuild"} /\ seg \in {"hist", "in"}
       /\ left \in Int /\ left >= 0 /\ m \in Int /\ blk \in Int /\ i \in Int /\ i >= 0 /\ done \in Int
       /\ pos \in Int /\ pos >= 0 /\ tot \in Int /\ hv \in Int /\ ho \in Int
       /\ ho = ORDER - 1
       /\ pc = "idle" => left = 0 /\ seg = "hist"
       /\ pc \in {"idle", "chunk"} => hv = ORDER - 1 /\ pos + left = tot
       /\ pc \notin {"idle", "chunk"} => m >= 1 /\ m <= bs /\ blk = m /\ pos + m + left = tot
       /\ pc = "copyin" => hv = ORDER - 1 /\ done = 0 /\ i = 0 /\ seg = "hist"
       /\ pc \in {"vec", "rest", "rebuild"} => hv = ORDER - 1 + HTodo
       /\ pc \in {"vec", "rest"} => i <= Limit /\ done = Base + i /\ (seg = "in" => m > HTodo)
       /\ pc = "vec" => i % 4 = 0
       /\ pc = "rebuild" => done = m
EvValid(k) == IF seg = "hist" THEN k >= 0 /\ k < hv ELSE k >= 0 /\ k < blk
OdValid(k) == IF seg = "hist" THEN k >= 0 /\ k < hv ELSE k >= 0 /\ k < m
EvMem(k) == IF seg = "hist" THEN k >= 0 /\ k < 2 * ORDER ELSE k >= 0 /\ k < bs
InMem(k) == k >= 0 /\ k < 2 * tot                     \* sample of the caller's input
Off == IF seg = "hist" THEN ho ELSE 0
WinOK(w) == /\ EvValid(i) /\ EvValid(i + w - 1 + ORDER - 1)
            /\ OdValid(i + HD) /\ OdValid(i + w - 1 + HD)
            /\ seg = "in" => InMem(2 * (pos + i + HD) + 1) /\ InMem(2 * (pos + i + w - 1 + HD) + 1)
            /\ i - Off = done - (ORDER - 1)
            /\ done >= 0 /\ done + w - 1 < m
Safe == /\ DoVec => WinOK(4) /\ EvMem(i + Top - 1) /\ i % 4 = 0
        /\ DoRest => WinOK(1)
        /\ pc = "copyin" => InMem(2 * pos) /\ InMem(2 * (pos + m - 1)) /\ InMem(2 * (pos + HTodo - 1) + 1) /\ m <= bs
                            /\ ORDER - 1 + HTodo <= 2 * ORDER
        /\ pc = "rebuild" => IF m > HTodo THEN HTodo = ORDER - 1 /\ m - HTodo + ORDER - 2 < blk /\ InMem(2 * (pos + m - HTodo + ORDER - 2) + 1)
                             ELSE m + ORDER - 2 < hv
        /\ pc = "idle" => hv = ORDER - 1 /\ ho = ORDER - 1
=============================================================================
