----------------------------- MODULE MC_Minimize ----------------------------
(* minimize_subnets (src/cmds/minimize.rs) as coded, for sets of networks of *)
(* a small address space, against Minimize. Which pair is merged first is    *)
(* left open unless ORDERED (the code takes the first in sorted order).      *)
EXTENDS Coded, Minimize, FiniteSetsExt, Json
CONSTANTS W, LOPSIDED, ATMOST, ORDERED, EMIT

VARIABLES ins, kept, pc
vars == <<ins, kept, pc>>

Universe == IF LOPSIDED THEN AllNets(W) ELSE AllCidrs(W)
Init == /\ ins \in UNION {kSubset(k, Universe) : k \in 1..(IF ATMOST < Cardinality(Universe) THEN ATMOST ELSE Cardinality(Universe))}
        /\ kept = ins /\ pc = "drop"

(* for i < j: networks inside another, earlier one                            *)
Drop == /\ pc = "drop"
        /\ kept' = {n \in ins : ~\E k \in ins : k # n /\ NetLt(k, n) /\ CSuperset(k, n)}
        /\ pc' = "merge" /\ UNCHANGED ins

(* the condition under which two networks are merged                          *)
Joins(n, k) == /\ NetLt(n, k) /\ n.m = k.m
               /\ (CNextBase(n) = None \/ CNextBase(n) = k.b)
               /\ CountOnes(Xor(n.b, k.b)) <= 1
Pairs == {p \in kept \X kept : Joins(p[1], p[2])}
PairLt(p, r) == NetLt(p[1], r[1]) \/ (p[1] = r[1] /\ NetLt(p[2], r[2]))
Eligible(p) == ~ORDERED \/ \A r \in Pairs : r = p \/ PairLt(p, r)
Joined(p) == MkNet(p[1].b, And(p[1].m, Not(Xor(p[1].b, p[2].b))))
Merge == /\ pc = "merge"
         /\ \E p \in Pairs : /\ Eligible(p)
                             /\ kept' = {n \in kept : ~CSuperset(Joined(p), n)} \cup {Joined(p)}
         /\ UNCHANGED <<ins, pc>>
Finish == pc = "merge" /\ Pairs = {} /\ pc' = "done" /\ UNCHANGED <<ins, kept>>
Next == Drop \/ Merge \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sorted == SetToSortSeq(kept, LAMBDA n, k : NetLt(n, k))
RECURSIVE Printed(_, _)                   \* the specification prints the list
Printed(q, i) == IF i > Len(Sorted) THEN q ELSE Printed(MiNext(q, Sorted[i]), i + 1)
RECURSIVE Allowed(_, _)
Allowed(q, i) == i > Len(Sorted) \/ (MiPrint(q, Sorted[i]) /\ Allowed(MiNext(q, Sorted[i]), i + 1))

SameAddresses == AddrsOf(kept) = AddrsOf(ins)
OutputAllowed == pc = "done" => /\ Allowed(MiInit(ins), 1)
                                /\ MiStop(Printed(MiInit(ins), 1))
JoinsIsMergeable == pc = "merge" => \A n, k \in kept : NetLt(n, k) => (Joins(n, k) <=> Mergeable(n, k))
(* For contiguous masks: the result is the set of maximal networks within     *)
(* the addresses, and it is shorter than every other list covering them (the  *)
(* input being any such list).                                                *)
Maximal(U) == {n \in AllCidrs(W) : Addrs(n) \subseteq U /\ (NetBits(n) = 0 \/ ~(Addrs(Wider(n)) \subseteq U))}
IsMaximal == (pc = "done" /\ ~LOPSIDED) => kept = Maximal(AddrsOf(ins))
Shortest == (pc = "done" /\ ~LOPSIDED) => /\ Cardinality(kept) <= Cardinality(ins)
                                         /\ (Cardinality(kept) = Cardinality(ins) => kept = ins)
(* The symbolic cover test of Net agrees with the sets of addresses.          *)
CoverAgrees == pc = "drop" =>
   LET U == TLCEval(AddrsOf(ins))
       ms == MasksOf(ins)
   IN  \A n \in Universe : LET c == Addrs(n) \subseteq U IN CoveredBy(n, ins) = c /\ Covered(n, ins, ms) = c
(* The tests that Minimize makes agree with their definitions (tried on the   *)
(* given networks, which may be nested and mergeable).                        *)
TestsAgree == pc \in {"drop", "done"} =>
   LET q == [ins |-> ins, masks |-> MasksOf(ins), outs |-> SetToSortSeq(ins, LAMBDA n, k : NetLt(n, k))]
       r == [ins |-> ins, masks |-> MasksOf(ins), outs |-> SetToSortSeq(kept, LAMBDA n, k : NetLt(n, k))]
   IN  /\ MiUnnested(q) <=> \A n, k \in ins : n # k => ~Superset(n, k)
       /\ MiUnmerged(q) <=> \A n, k \in ins : ~Mergeable(n, k)
       /\ MiCovers(r) <=> \A n \in ins : Addrs(n) \subseteq AddrsOf(kept)
       /\ ins # {} => LET n == CHOOSE n \in ins : TRUE IN ~MiUnnested([q EXCEPT !.outs = Append(@, n)])
(* Minimizing the result again changes nothing.                               *)
Idempotent == pc = "done" => /\ Pairs = {}
                             /\ ~\E n, k \in kept : n # k /\ CSuperset(k, n)
Ends == <>(pc = "done")
Emit == (EMIT /\ pc = "done") => PrintT("BEH " \o ToJson([ins |-> SetToSeq(ins), outs |-> Sorted]))
=============================================================================
