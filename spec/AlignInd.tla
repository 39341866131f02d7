------------------------------ MODULE AlignInd ------------------------------
(* Placement of the elements of an AlignedArray in the block that malloc returned, *)
(* for every address, every element size and every number of elements: a sequence  *)
(* of arrays, each in a block of its own, laid out by the allocator in any order.   *)
EXTENDS Integers
VARIABLES
    \* @type: Int;
    base,      \* of the youngest block
    \* @type: Int;
    size,      \* requested
    \* @type: Int;
    data,      \* first element
    \* @type: Int;
    bytes,     \* of all elements
    \* @type: Int;
    line,      \* last cache line (number) of this array's elements, -1: none
    \* @type: Int;
    obase,     \* the same of any other living array
    \* @type: Int;
    osize,
    \* @type: Int;
    odata,
    \* @type: Int;
    obytes,
    \* @type: Bool;
    placed
aivars == <<base, size, data, bytes, line, obase, osize, odata, obytes, placed>>
Line == 64
Slack == 2 * (Line - 1)
Place(b) == IF b % Line = 0 THEN b ELSE b + (Line - (b % Line))
Init == /\ base = 0 /\ size = 0 /\ data = 0 /\ bytes = 0 /\ line = -1 /\ placed = FALSE
        /\ obase = 0 /\ osize = 0 /\ odata = 0 /\ obytes = 0
\* the allocator returns any block that does not overlap the other one
Disjoint(a, n, b, m) == n = 0 \/ m = 0 \/ a + n <= b \/ b + m <= a
New == \E b \in Int, k \in Int :
         /\ b > 0 /\ k >= 0
         /\ Disjoint(b, k + Slack, obase, osize)
         /\ base' = b /\ bytes' = k /\ size' = k + Slack /\ data' = Place(b)
         /\ line' = (IF k = 0 THEN -1 ELSE (Place(b) + k - 1) \div Line)
         /\ placed' = TRUE /\ UNCHANGED <<obase, osize, odata, obytes>>
\* attention moves to another array
Other == /\ placed /\ obase' = base /\ osize' = size /\ odata' = data /\ obytes' = bytes
         /\ base' = 0 /\ size' = 0 /\ data' = 0 /\ bytes' = 0 /\ line' = -1 /\ placed' = FALSE
Next == New \/ Other
-----------------------------------------------------------------------------
Inside(b, s, d, k) == /\ d % Line = 0 /\ b <= d /\ d - b <= Line - 1 /\ s = k + Slack /\ k >= 0 /\ b > 0
Inv == /\ base \in Int /\ size \in Int /\ data \in Int /\ bytes \in Int /\ line \in Int
       /\ obase \in Int /\ osize \in Int /\ odata \in Int /\ obytes \in Int /\ placed \in BOOLEAN
       /\ placed => Inside(base, size, data, bytes)
       /\ placed /\ bytes > 0 => line = (data + bytes - 1) \div Line
       /\ ~placed => base = 0 /\ size = 0 /\ data = 0 /\ bytes = 0
       /\ osize > 0 => Inside(obase, osize, odata, obytes)
       /\ osize = 0 => obytes = 0
       /\ osize >= 0
       /\ Disjoint(base, size, obase, osize)
Safe == /\ placed => data % Line = 0
        /\ placed => base <= data /\ data + bytes <= base + size             \* elements lie in the block
        /\ placed /\ bytes > 0 => (line + 1) * Line <= base + size           \* and so does the rest of their last line:
        /\ placed /\ bytes > 0 /\ obytes > 0 =>                              \* no line holds elements of two arrays
             data \div Line > (odata + obytes - 1) \div Line \/ odata \div Line > line
=============================================================================
