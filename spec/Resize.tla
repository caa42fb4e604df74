------------------------------- MODULE Resize ------------------------------
(* --resize: the network number of the original (the address bits its mask   *)
(* selects) is kept, cut short or extended in every way, and laid out under  *)
(* the new mask.                                                             *)
EXTENDS Net

ReKind(orig, mask) == LET o == NetBits(orig)  k == CountOnes(mask)
                      IN  IF k < o THEN "Supernet" ELSE IF k = o THEN "Same" ELSE "Subnets"

(* ext: the extension of the network number for the next subnet.             *)
ReInit(orig, mask) ==
   [orig |-> orig, mask |-> mask, kind |-> ReKind(orig, mask), num |-> NetNum(orig), i |-> 1, done |-> FALSE,
    ext |-> Zeros(IF CountOnes(mask) > NetBits(orig) THEN CountOnes(mask) - NetBits(orig) ELSE 0)]

(* The network printed next.                                                 *)
ReNumber(q) == IF q.kind = "Subnets" THEN q.num \o q.ext ELSE SubSeq(q.num, 1, CountOnes(q.mask))
ReNet(q) == NetOfNum(ReNumber(q), q.mask)
RePrint(q, n) == ~q.done /\ n.m = q.mask /\ n.b = And(n.b, n.m) /\ NetNum(n) = ReNumber(q)
ReNext(q) == IF AllOnes(q.ext) THEN [q EXCEPT !.done = TRUE]
             ELSE [q EXCEPT !.ext = Inc(@), !.i = @ + 1]
ReStop(q) == q.done

(* The state after k more networks, without going through them; ok: whether   *)
(* there are that many.                                                       *)
ReSkip(q, k) ==
   LET p == TLCEval(Plus(q.ext, k))
   IN  CASE k = 0 -> [v |-> q, ok |-> TRUE]
         [] k > 0 /\ p.c = 0 -> [v |-> [q EXCEPT !.ext = p.v, !.i = @ + k], ok |-> ~q.done]
         [] k > 0 /\ p.c # 0 -> [v |-> [q EXCEPT !.ext = Ones(Len(q.ext)), !.i = @ + Val(Not(q.ext)), !.done = TRUE],
                                ok |-> ~q.done /\ p.c = 1 /\ AllZeros(p.v)]
============================================================================
