------------------------------- MODULE Split -------------------------------
(* --split: one network per request, each the smallest CIDR network that is  *)
(* large enough, all disjoint and inside the network being split; then the   *)
(* fewest CIDR networks that make up the rest. A request is given as the     *)
(* number of host bits it needs (-1: more than the address space has).       *)
EXTENDS Net

SpInit(net, needs) == [net |-> net, needs |-> needs, alloc |-> <<>>, unused |-> <<>>]
SpSet(ns) == {ns[i] : i \in 1..Len(ns)}

(* Do blocks of 2^needs[i] addresses fit into 2^h? Carry upwards, rounding   *)
(* up, in units of ever larger blocks.                                       *)
RECURSIVE SpCarry(_, _, _, _)
SpCarry(needs, h, level, c) ==
   LET here == c + Len(SelectSeq(needs, LAMBDA x : x = level))
   IN  IF level = h THEN here ELSE SpCarry(needs, h, level + 1, (here + 1) \div 2)
SpFits(net, needs) == /\ \A i \in 1..Len(needs) : needs[i] >= 0 /\ needs[i] <= HostBits(net)
                      /\ SpCarry(needs, HostBits(net), 0, 0) <= 1

SpRightSize(q, n) == IsCidr(n) /\ HostBits(n) = q.needs[Len(q.alloc) + 1]
SpInside(q, n)    == Superset(q.net, n)
SpSeparate(q, n)  == \A i \in 1..Len(q.alloc) : Disjoint(q.alloc[i], n)
SpAlloc(q, n) == /\ Len(q.alloc) < Len(q.needs) /\ SpFits(q.net, q.needs)
                 /\ SpRightSize(q, n) /\ SpInside(q, n) /\ SpSeparate(q, n)
SpNextAlloc(q, n) == [q EXCEPT !.alloc = Append(@, n)]
SpAllocated(q) == Len(q.alloc) = Len(q.needs)

SpFree(q, n) == /\ IsCidr(n) /\ SpInside(q, n)
                /\ \A i \in 1..Len(q.alloc) : Disjoint(q.alloc[i], n)
                /\ \A i \in 1..Len(q.unused) : Disjoint(q.unused[i], n)
SpAscends(q, n) == q.unused = <<>> \/ Lt(q.unused[Len(q.unused)].b, n.b)
SpUnused(q, n) == SpAllocated(q) /\ SpFree(q, n) /\ SpAscends(q, n)
SpNextUnused(q, n) == [q EXCEPT !.unused = Append(@, n)]

SpComplete(q) == CoveredBy(q.net, SpSet(q.alloc) \cup SpSet(q.unused))
(* No two unused CIDR networks make up a bigger one (looked up, not searched   *)
(* for: MC_Split compares the two).                                            *)
SpFewest(q) == LET U == SpSet(q.unused) IN \A n \in U : AllZeros(n.m) \/ Buddy(n) \notin U
SpFewestPairs(q) == \A i, j \in 1..Len(q.unused) : i < j => ~Mergeable(q.unused[i], q.unused[j])
SpStop(q) == SpAllocated(q) /\ SpComplete(q) /\ SpFewest(q)
============================================================================
