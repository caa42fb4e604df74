------------------------------ MODULE MC_Facts ------------------------------
(* The facts of src/net.rs and src/cidr.rs as coded, for every network of a  *)
(* small address space, against Net.                                         *)
EXTENDS Coded, Json
CONSTANTS W, Y, EMIT        \* Y: bits per byte
VARIABLES n, a, pc
vars == <<n, a, pc>>
Init == n \in AllNets(W) /\ a \in AllVecs(W) /\ pc = "new"
Next == pc = "new" /\ pc' = "seen" /\ UNCHANGED <<n, a>>
Spec == Init /\ [][Next]_vars

Nth(k) == CHOOSE x \in Addrs(n) : Cardinality({y \in Addrs(n) : Le(y, x)}) = k
Size == 2 ^ HostBits(n)
Hosts == IF HostBits(n) < 2 THEN CFirstHost(n) = None /\ CLastHost(n) = None
         ELSE /\ CFirstHost(n) = HostMin(n) /\ CFirstHost(n) = Nth(2)
              /\ CLastHost(n) = HostMax(n) /\ CLastHost(n) = Nth(Size - 1)
Broadcast == IF HostBits(n) < 1 THEN CBcast(n) = None ELSE CBcast(n) = Bcast(n)
LastAddr == CLast(n) = Bcast(n) /\ Bcast(n) = Nth(Size) /\ n.b = Nth(1) /\ Cardinality(Addrs(n)) = Size
NextBase == IF HasNextNet(n) THEN CNextBase(n) = NextNetBase(n) ELSE CNextBase(n) = None
Ravel == /\ Weave(Unravel(a, n.m), n.m) = a
         /\ Unravel(Weave(a, n.m), n.m) = a
         /\ InNet(n, a) <=> \E x \in Addrs(n) : x = a
PrefixTable == /\ CPrefixOf(n.m, Y) = (IF IsPrefixMask(n.m) THEN CountOnes(n.m) ELSE -1)
               /\ \A p \in 0..W : CMaskBytes(<<>>, p, W, Y) = PrefixMask(W, p)
Halves == LET h == W \div 2
              top(x) == Val(x) \div 2 ^ h
              bot(x) == Val(x) % 2 ^ h
              s == AddHalves(top(a), bot(a), top(n.m), bot(n.m), h)
              t == Add(a, n.m)
          IN  IF t = None THEN s = -1 ELSE s = Val(t)
Ordering == /\ Lt(a, n.m) <=> Val(a) < Val(n.m)
            /\ (~AllOnes(a) => Val(Inc(a)) = Val(a) + 1) /\ (~AllZeros(a) => Val(Dec(a)) = Val(a) - 1)
Numbering == NetOfNum(NetNum(n), n.m) = n
Emit == (EMIT /\ pc = "seen") => PrintT("BEH " \o ToJson([n |-> n, a |-> a]))
=============================================================================
