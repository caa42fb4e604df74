----------------------------- MODULE Enumerate -----------------------------
(* --enumerate: print every address of each network in turn, ascending.      *)
EXTENDS Net

EnInit(nets) == [nets |-> nets, i |-> 1, at |-> IF nets = <<>> THEN <<>> ELSE nets[1].b]

EnPrint(q, a) == q.i <= Len(q.nets) /\ a = q.at
EnNext(q) ==
   IF q.at # Bcast(q.nets[q.i]) THEN [q EXCEPT !.at = NextIn(q.nets[q.i], q.at)]
   ELSE IF q.i < Len(q.nets) THEN [q EXCEPT !.i = @ + 1, !.at = q.nets[q.i + 1].b]
   ELSE [q EXCEPT !.i = @ + 1, !.at = <<>>]
EnStop(q) == q.i > Len(q.nets)

(* The state after k more addresses, without going through them; left: how    *)
(* many of them there are not.                                                *)
RECURSIVE EnSkip(_, _)
EnSkip(q, k) ==
   IF k = 0 \/ EnStop(q) THEN [v |-> q, left |-> k]
   ELSE LET n == q.nets[q.i]
            h == Pick(q.at, OnesAt(Not(n.m)))          \* the host number
            p == TLCEval(Plus(h, k))
        IN  IF p.c = 0 THEN [v |-> [q EXCEPT !.at = Or(n.b, NetOfNum(p.v, Not(n.m)).b)], left |-> 0]
            ELSE EnSkip(EnNext([q EXCEPT !.at = Bcast(n)]), k - Val(Not(h)) - 1)
============================================================================
