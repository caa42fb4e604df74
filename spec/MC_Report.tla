----------------------------- MODULE MC_Report ------------------------------
(* The class, the colours and the columns of src/cmds/show_net.rs as coded,   *)
(* for every network and address whose first W bits vary, against Report; and *)
(* the decimal arithmetic of Text against numbers.                            *)
EXTENDS CodedReport, Json
CONSTANTS W, EMIT

(* A first byte of W bits; the bits of the later bytes repeat it, complemented. *)
VARIABLES n, a, pc
vars == <<n, a, pc>>
Init == n \in AllNets(W) /\ a = n.b /\ pc = "net"
(* the address is any of the network (the Address line shows it)               *)
Pick1 == pc = "net" /\ a' \in Addrs(n) /\ pc' = "seen" /\ UNCHANGED n
Next == Pick1
Spec == Init /\ [][Next]_vars

Twice(v) == v \o Not(v)
N2 == [b |-> And(Twice(n.b), Twice(n.m)), m |-> Twice(n.m)]

ClassRight == CClass(n.b, n.m) = (IF Classful(n) THEN ClassName(n.b) ELSE "")
(* at most one class, and only by bits that are fixed in the network           *)
ClassOfAll == CClass(n.b, n.m) # "" => \A x \in Addrs(n) : ClassName(x) = CClass(n.b, n.m)
ClassIfAll == CClass(n.b, n.m) = "" => \E x, y \in Addrs(n) : ClassBits(n.b) > W \/ ClassName(x) # ClassName(y)

LineKinds == {"Address", "Network", "Netmask"}
Written(kind, f) ==
   CASE kind = "Address" -> CBinary(f, a \o Not(a), N2.m, "bits", FALSE, W)
     [] kind = "Network" -> CBinary(f, N2.b, N2.m, "bits", TRUE, W)
     [] kind = "Netmask" -> CBinary(f, N2.m, N2.m, "mask", FALSE, W)
Shown(kind) == CASE kind = "Address" -> a \o Not(a) [] kind = "Network" -> N2.b [] kind = "Netmask" -> N2.m
Coloured(kind, f) ==
   LET u == Uncolour(Written(kind, f))
       bits == SelectSeq([i \in 1..Len(u.txt) |-> i], LAMBDA i : u.txt[i] \in {48, 49})
   IN  /\ u.ok
       /\ Len(bits) = 2 * W
       /\ \A i \in 1..(2 * W) :
             /\ u.txt[bits[i]] = 48 + Shown(kind)[i]
             /\ u.col[bits[i]] = (IF f = 6 THEN (IF kind = "Netmask" THEN ColMask ELSE IF N2.m[i] = 1 THEN ColNet ELSE ColHost)
                                  ELSE BitColour(kind, N2, i))
       /\ (f = 4) <=> (SelectSeq(u.txt, LAMBDA c : c \notin {48, 49}) = <<DOT>>)
ColoursRight == pc = "seen" => \A kind \in LineKinds : Coloured(kind, 4)
Colours6Right == pc = "net" => \A kind \in LineKinds : Coloured(kind, 6)

(* ---- columns and numbers (the same in every state: looked at once) ----------- *)
First == pc = "net" /\ n = [b |-> Zeros(W), m |-> Zeros(W)]
Columns == First => \A k \in 0..14 : \A to \in 0..14 :
   CPad([i \in 1..k |-> 65], to) = PadTo([i \in 1..k |-> 65], to)
Counts == First =>
   /\ \A h \in 0..29 : HostCountText(h) = DecText(IF h < 2 THEN 0 ELSE 2 ^ h - 2)
   /\ \A h \in 2..127 : \E d \in {HostCountText(h)} :                      \* N(h+1) = 2 N(h) + 2
         LET dbl == DoubleDec(d) IN HostCountText(h + 1) = [dbl EXCEPT ![Len(dbl)] = @ + 2] \/ dbl[Len(dbl)] = 56
   /\ \A h \in 2..128 : LET t == HostCountText(h) IN
         /\ NeededHostBits(t, 128) = h
         /\ (h < 128 => NeededHostBits([t EXCEPT ![Len(t)] = @ + 1], 128) = h + 1)
         /\ NeededHostBits(Lit("000") \o t, 128) = h
   /\ \A c \in 1..300 : NeededHostBits(DecText(c), 30) = MinOf({h \in 1..30 : 2 ^ h - 2 >= c})
   /\ NeededHostBits(Lit("0"), 128) = 1
   /\ NeededHostBits(Append(HostCountText(128), 48), 128) = -1
Emit == (EMIT /\ pc = "net") => PrintT("BEH " \o ToJson([n |-> n]))
=============================================================================
