------------------------------ MODULE MC_Split ------------------------------
(* split_subnet and output_split (src/cmds/split.rs) as coded, for every     *)
(* CIDR network of a small address space and every short list of requested   *)
(* host counts, against Split. Among equal counts any may come first.        *)
EXTENDS Coded, Split, Json
CONSTANTS W, REQS, EMIT

VARIABLES net, counts, todo, base, got, pc, nomore
vars == <<net, counts, todo, base, got, pc, nomore>>

(* Host counts around every boundary 2^h - 2.                                 *)
Boundaries == {c \in UNION {{(2 ^ h) - 2, (2 ^ h) - 1} : h \in 1..W} \cup {0, 1} : c >= 0}
Need(c) == LET ok == {h \in 1..W : (2 ^ h) - 2 >= c} IN IF ok = {} THEN -1 ELSE MinOf(ok)
needs == [i \in 1..Len(counts) |-> Need(counts[i])]

Init == /\ net \in AllCidrs(W)
        /\ counts \in UNION {[1..k -> Boundaries] : k \in 1..REQS}
        /\ todo = 1..Len(counts) /\ base = net.b /\ nomore = FALSE
        /\ got = [i \in 1..Len(counts) |-> <<>>] /\ pc = "place"

RECURSIVE GrowTo(_, _)
GrowTo(n, c) == IF (2 ^ HostBits(n)) - 2 >= c \/ NetBits(n) = 0 THEN n
                ELSE GrowTo(Cidr(n.b, NetBits(n) - 1), c)
Place == /\ pc = "place" /\ todo # {}
         /\ \E i \in todo :
              /\ \A j \in todo : counts[j] <= counts[i]
              /\ IF nomore THEN pc' = "none" /\ UNCHANGED <<todo, base, got, nomore>>
                 ELSE LET n == GrowTo(Cidr(base, W), counts[i])
                      IN  IF (2 ^ HostBits(n)) - 2 < counts[i] THEN pc' = "none" /\ UNCHANGED <<todo, base, got, nomore>>
                          ELSE /\ got' = [got EXCEPT ![i] = n] /\ todo' = todo \ {i}
                               /\ IF CNextBase(n) = None THEN nomore' = TRUE /\ UNCHANGED base
                                  ELSE base' = CNextBase(n) /\ UNCHANGED nomore
                               /\ UNCHANGED pc
         /\ UNCHANGED <<net, counts>>
MaxUsed == MaxOf({Val(CLast(got[i])) : i \in 1..Len(got)})
Check == /\ pc = "place" /\ todo = {}
         /\ pc' = IF ~\A i \in 1..Len(got) : CSuperset(net, got[i]) THEN "small" ELSE "fits"
         /\ UNCHANGED <<net, counts, todo, base, got, nomore>>
Next == Place \/ Check
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* range_to_subnets is checked in MC_Derange: the largest aligned blocks.     *)
RECURSIVE RangeFrom(_, _)
RangeFrom(a, h) == LET n == CHOOSE n \in AllCidrs(W) : n.b = a /\ Le(Bcast(n), h) /\
                                \A k \in AllCidrs(W) : k.b = a /\ Le(Bcast(k), h) => NetBits(n) <= NetBits(k)
                   IN  IF Bcast(n) = h THEN <<n>> ELSE <<n>> \o RangeFrom(Inc(Bcast(n)), h)
Unused == IF MaxUsed >= Val(CLast(net)) THEN <<>> ELSE RangeFrom(FromVal(MaxUsed + 1, W), CLast(net))

RECURSIVE AllocAll(_, _)                   \* the specification prints the allocations...
AllocAll(q, i) == IF i > Len(got) THEN q
                  ELSE IF ~SpAlloc(q, got[i]) THEN [q EXCEPT !.net = <<>>]
                  ELSE AllocAll(SpNextAlloc(q, got[i]), i + 1)
RECURSIVE UnusedAll(_, _)                  \* ... and the rest
UnusedAll(q, i) == IF i > Len(Unused) THEN q
                   ELSE IF ~SpUnused(q, Unused[i]) THEN [q EXCEPT !.net = <<>>]
                   ELSE UnusedAll(SpNextUnused(q, Unused[i]), i + 1)

FitsAllowed == pc = "fits" =>
   LET q == AllocAll(SpInit(net, needs), 1)
   IN  /\ q.net # <<>>
       /\ LET r == UnusedAll(q, 1) IN r.net # <<>> /\ SpStop(r) /\ SpFewestPairs(r)
(* It fits when, and only when, the specification says so, and that is when   *)
(* the sizes add up to no more than the network.                              *)
Size(h) == IF h < 0 THEN 2 ^ (W + 1) ELSE 2 ^ h
RECURSIVE Total(_)
Total(i) == IF i > Len(counts) THEN 0 ELSE Size(needs[i]) + Total(i + 1)
FitsIffSpec == pc \in {"fits", "small", "none"} => (pc = "fits" <=> SpFits(net, needs))
FitsIffSum  == SpFits(net, needs) <=> Total(1) <= 2 ^ HostBits(net)
Ends == <>(pc \in {"fits", "small", "none"})
Emit == (EMIT /\ pc \in {"fits", "small", "none"}) =>
           PrintT("BEH " \o ToJson([net |-> net, counts |-> counts, end |-> pc]))
=============================================================================
