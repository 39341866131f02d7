----------------------------- MODULE RoundTrip ------------------------------
(* An upsampler feeding a downsampler of the same ratio, as a system of two        *)
(* objects of the contract.  Blocks of any size go through the chain; in between   *)
(* either object may be reset together with the other.  The chain is a delay line: *)
(* output k of the chain is, up to filter error, input k - D with                   *)
(* D = up.delay/ratio + down.delay; here with ideal filters, so that the sample     *)
(* bookkeeping (what the caller has to do to line signals up) is decided exactly.   *)
EXTENDS Integers, Sequences
CONSTANTS Ratios, DU, DD,      \* ideal delays of the two stages in base-rate samples
          NMax, Blocks
VARIABLES r, fed, mid, out
vars == <<r, fed, mid, out>>
\* ideal upsampler: output j of a stream is input (j - DU*r)/r at multiples of r, a marker in between
UpOut(j) == IF j < DU * r THEN 0 ELSE IF (j - DU * r) % r = 0 THEN (j - DU * r) \div r + 1 ELSE -1
\* ideal downsampler: output k is its input r*k - DD*r
DownOut(k, m) == IF r * k - DD * r < 0 THEN 0 ELSE m[r * k - DD * r + 1]
Init == r \in Ratios /\ fed = 0 /\ mid = <<>> /\ out = <<>>
Feed(n) == /\ fed + n <= NMax
           /\ fed' = fed + n
           /\ mid' = mid \o [i \in 1..(n * r) |-> UpOut(fed * r + i - 1)]
           /\ out' = out \o [i \in 1..n |-> DownOut(fed + i - 1, mid')]
           /\ UNCHANGED r
Reset == fed > 0 /\ fed' = 0 /\ mid' = <<>> /\ out' = <<>> /\ UNCHANGED r
Next == (\E n \in Blocks : Feed(n)) \/ Reset \/ (fed = NMax /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* sample q+1 stands for input q: the chain returns inputs in order, DU + DD late, none twice, none missing
Aligned == /\ Len(out) = fed /\ Len(mid) = r * fed
           /\ \A k \in 1..Len(out) : out[k] = (IF k - 1 < DU + DD THEN 0 ELSE (k - 1) - (DU + DD) + 1)
=============================================================================
