------------------------------ MODULE Derange ------------------------------
(* --derange: from the lower end of a range on, print the largest CIDR       *)
(* network that starts at the cursor and ends within the range, until the    *)
(* upper end is reached.                                                     *)
EXTENDS Net

DeInit(a, b) == [at |-> LoOf(a, b), hi |-> HiOf(a, b), done |-> FALSE]

DeStarts(q, n)  == ~q.done /\ IsCidr(n) /\ n.b = q.at
DeWithin(q, n)  == Le(Bcast(n), q.hi)
DeLargest(q, n) == NetBits(n) = 0 \/ LET g == Wider(n) IN g.b # n.b \/ Lt(q.hi, Bcast(g))

DePrint(q, n) == DeStarts(q, n) /\ DeWithin(q, n) /\ DeLargest(q, n)
DeNext(q, n)  == IF Bcast(n) = q.hi THEN [q EXCEPT !.done = TRUE] ELSE [q EXCEPT !.at = Inc(Bcast(n))]
DeStop(q)     == q.done
============================================================================
