-------------------------------- MODULE Net --------------------------------
(* Networks: a base address and a mask of the same width. The mask is any    *)
(* bit vector ("lopsided" when its ones are not all in front).  An address   *)
(* belongs to the network when it agrees with the base on all mask bits.     *)
EXTENDS Bits

MkNet(a, m) == [b |-> And(a, m), m |-> m]

Width(n)     == Len(n.m)
Wild(n)      == Not(n.m)
Bcast(n)     == Or(n.b, Not(n.m))
NetBits(n)   == CountOnes(n.m)
HostBits(n)  == Width(n) - NetBits(n)
IsCidr(n)    == IsPrefixMask(n.m)
InNet(n, a) == And(a, n.m) = n.b

(* Every address of k is an address of n.                                    *)
Superset(n, k) == /\ And(k.m, n.m) = n.m
                  /\ And(k.b, n.m) = n.b
(* n and k share no address: they disagree on a bit fixed in both.           *)
Disjoint(n, k) == \E i \in 1..Len(n.m) : n.m[i] = 1 /\ k.m[i] = 1 /\ n.b[i] # k.b[i]

(* The addresses of a network as a set (small widths only).                  *)
Addrs(n) == {a \in AllVecs(Width(n)) : InNet(n, a)}
AddrsOf(S) == UNION {Addrs(n) : n \in S}
AllNets(w) == {[b |-> And(a, m), m |-> m] : a \in AllVecs(w), m \in AllVecs(w)}
AllCidrs(w) == {[b |-> And(a, PrefixMask(w, p)), m |-> PrefixMask(w, p)] : a \in AllVecs(w), p \in 0..w}

(* The next higher address of the network: fill the network bits with ones   *)
(* so that a carry runs through them. Defined when a # Bcast(n).             *)
NextIn(n, a) == Or(And(Inc(Or(a, n.m)), Not(n.m)), n.b)
PrevIn(n, a) == Or(And(Dec(And(a, Not(n.m))), Not(n.m)), n.b)

(* Lowest and highest host address: second-lowest and second-highest.        *)
HostMin(n) == NextIn(n, n.b)
HostMax(n) == PrevIn(n, Bcast(n))

(* The base address of the next network with the same mask, if any.          *)
HasNextNet(n) == n.b # n.m
NextNetBase(n) == And(Inc(Bcast(n)), n.m)

(* The network number: the address bits selected by the mask, in order.      *)
NetNum(n) == Pick(n.b, OnesAt(n.m))
(* How many ones m has up to each position; and the network under mask m     *)
(* with a given network number (one bit per one of m).                       *)
RanksOf(m) == FoldLeft(LAMBDA acc, x : TLCEval(Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + x)), <<>>, m)
NetOfNum(num, m) == LET r == RanksOf(m)
                    IN  [b |-> TLCEval([i \in 1..Len(m) |-> IF m[i] = 1 THEN num[r[i]] ELSE 0]), m |-> m]

(* The CIDR network with one network bit less that contains n.               *)
Wider(n) == MkNet(n.b, PrefixMask(Width(n), NetBits(n) - 1))

(* Order of networks: by base address, then by mask.                         *)
NetLt(n, k) == Lt(n.b, k.b) \/ (n.b = k.b /\ Lt(n.m, k.m))

(* Two networks that differ in the lowest bit of their common mask only.     *)
Mergeable(n, k) ==
   /\ n.m = k.m
   /\ n.b # k.b
   /\ LET low == MaxOf({i \in 1..Len(n.m) : n.m[i] = 1})
      IN  \A i \in 1..Len(n.m) : n.b[i] # k.b[i] => i = low

(* The network that n can be merged with (n having network bits).            *)
Buddy(n) == LET low == MaxOf({i \in 1..Len(n.m) : n.m[i] = 1}) IN [n EXCEPT !.b[low] = 1 - @]

(* Every address of n lies in a network of S, decided by splitting n on a    *)
(* bit that S distinguishes and n does not.                                  *)
RECURSIVE CoveredBy(_, _)
CoveredBy(n, S) ==
   IF \E s \in S : Superset(s, n) THEN TRUE
   ELSE LET T == {s \in S : ~Disjoint(s, n)}
        IN  IF T = {} THEN FALSE
            ELSE LET s == CHOOSE s \in T : TRUE
                     i == MinOf({j \in 1..Len(n.m) : s.m[j] = 1 /\ n.m[j] = 0})
                     m2 == [n.m EXCEPT ![i] = 1]
                 IN  /\ CoveredBy([b |-> n.b, m |-> m2], T)
                     /\ CoveredBy([b |-> [n.b EXCEPT ![i] = 1], m |-> m2], T)
(* The same for many networks of a few different masks ms: most are part of   *)
(* a single network of S.                                                    *)
MasksOf(S) == TLCEval({n.m : n \in S})
Inside(n, S, ms) == \E m \in ms : And(n.m, m) = m /\ [b |-> And(n.b, m), m |-> m] \in S
Covered(n, S, ms) == Inside(n, S, ms) \/ CoveredBy(n, S)
============================================================================
