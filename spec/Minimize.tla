------------------------------ MODULE Minimize -----------------------------
(* --minimize: print, ascending, networks that contain the same addresses as *)
(* the given ones, none inside another one and no two of them mergeable.     *)
EXTENDS Net

MiInit(ins) == [ins |-> ins, masks |-> TLCEval({n.m : n \in ins}), outs |-> <<>>]
MiSet(q) == TLCEval({q.outs[i] : i \in 1..Len(q.outs)})

MiAscends(q, n) == q.outs = <<>> \/ NetLt(q.outs[Len(q.outs)], n)
MiOnlyGiven(q, n) == Covered(n, q.ins, q.masks)    \* no address that was not given
MiPrint(q, n) == MiAscends(q, n) /\ MiOnlyGiven(q, n)
MiNext(q, n) == [q EXCEPT !.outs = Append(@, n)]

MiCovers(q)   == LET S == MiSet(q)                 \* every given address
                     ms == MasksOf(S)
                 IN  \A n \in q.ins : Covered(n, S, ms)
MiUnnested(q) == LET S == MiSet(q)
                     ms == MasksOf(S)
                 IN  Cardinality(S) = Len(q.outs) /\ \A n \in S : ~Inside(n, S, ms \ {n.m})
MiUnmerged(q) == LET S == MiSet(q) IN \A n \in S : AllZeros(n.m) \/ Buddy(n) \notin S
MiCidrs(q)    == (\A n \in q.ins : IsCidr(n)) => \A i \in 1..Len(q.outs) : IsCidr(q.outs[i])
MiStop(q) == MiCovers(q) /\ MiUnnested(q) /\ MiUnmerged(q) /\ MiCidrs(q)
============================================================================
