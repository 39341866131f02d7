------------------------------ MODULE Numbers ------------------------------
EXTENDS Integers
\* a and b differ by at most t; 2^31 - 1 stands for NaN, which is like nothing but itself; no operation leaves 32 bits
Within(a, b, t) == \/ a = b
                   \/ /\ a < 2147483647 /\ b < 2147483647
                      /\ IF (a < 0) # (b < 0) THEN a <= t /\ -a <= t /\ b <= t /\ -b <= t /\ a - b <= t /\ b - a <= t
                         ELSE a - b <= t /\ b - a <= t
=============================================================================
