------------------------------ MODULE MC_Chain ------------------------------
(* What one invocation prints is given to the next: every sequence of modes,  *)
(* applied to every small list of CIDR networks of a small address space. A   *)
(* mode does what its specification allows, in every way it allows.           *)
EXTENDS Net, FiniteSetsExt, Json
CONSTANTS W, NETS, DEPTH, EMIT
D == INSTANCE Derange
E == INSTANCE Enumerate
M == INSTANCE Minimize
R == INSTANCE Resize
S == INSTANCE Split

VARIABLES orig, cur, hist, ok
vars == <<orig, cur, hist, ok>>

Universe == AllCidrs(W)
Init == /\ orig \in UNION {kSubset(k, Universe) : k \in 1..NETS}
        /\ cur = orig /\ hist = <<>> /\ ok = TRUE

(* ---- what the modes print, as sets ----------------------------------------- *)
(* all lists that --minimize may print                                          *)
RECURSIVE MinLists(_)
MinLists(q) == (IF M!MiStop(q) THEN {M!MiSet(q)} ELSE {}) \cup
               UNION {MinLists(M!MiNext(q, n)) : n \in {n \in Universe : M!MiPrint(q, n)}}
(* (of the networks within the addresses; the others are never allowed)         *)
AddrTab == TLCEval([n \in Universe |-> Addrs(n)])
Above == TLCEval([n \in Universe |-> IF NetBits(n) = 0 THEN n ELSE Wider(n)])
Holds(ns) == UNION {AddrTab[n] : n \in ns}
Maximal(U) == {n \in Universe : AddrTab[n] \subseteq U /\ (NetBits(n) = 0 \/ ~(AddrTab[Above[n]] \subseteq U))}

RECURSIVE DerangeList(_, _)
DerangeList(q, acc) == IF D!DeStop(q) THEN acc
                       ELSE LET n == CHOOSE n \in Universe : D!DePrint(q, n) IN DerangeList(D!DeNext(q, n), acc \cup {n})
RECURSIVE ResizeList(_, _)
ResizeList(q, acc) == IF R!ReStop(q) THEN acc ELSE ResizeList(R!ReNext(q), acc \cup {R!ReNet(q)})
(* all sets that --split may print for requests of these sizes                  *)
RECURSIVE Allocs(_)
Allocs(q) == IF S!SpAllocated(q) THEN {q}
             ELSE UNION {Allocs(S!SpNextAlloc(q, n)) : n \in {n \in Universe : S!SpAlloc(q, n)}}
RECURSIVE Rests(_)
Rests(q) == (IF S!SpStop(q) THEN {S!SpSet(q.alloc) \cup S!SpSet(q.unused)} ELSE {}) \cup
            UNION {Rests(S!SpNextUnused(q, n)) : n \in {n \in Universe : S!SpUnused(q, n)}}
SplitSets(n, needs) == UNION {Rests(q) : q \in Allocs(S!SpInit(n, needs))}

(* ---- the steps ------------------------------------------------------------------ *)
May == Len(hist) < DEPTH
Did(op) == hist' = Append(hist, op) /\ UNCHANGED orig
Single(a) == [b |-> a, m |-> Ones(W)]

Minimize == May /\ cur' = Maximal(Holds(cur)) /\ Did(<<"m">>)
            /\ ok' = M!MiStop([ins |-> cur, outs |-> SetToSortSeq(cur', LAMBDA n, k : NetLt(n, k))])
Enumerate == May /\ cur' = {Single(x) : x \in Holds(cur)} /\ Did(<<"e">>) /\ UNCHANGED ok
DerangeTab == TLCEval([n \in Universe |-> DerangeList(D!DeInit(Bcast(n), n.b), {})])
ResizeTab == TLCEval([x \in Universe \X (0..2) |->
   ResizeList(R!ReInit(x[1], PrefixMask(W, IF NetBits(x[1]) + x[2] > W THEN W ELSE NetBits(x[1]) + x[2])), {})])
Derange == May /\ cur' = UNION {DerangeTab[n] : n \in cur} /\ Did(<<"d">>) /\ ok' = (cur' = cur)
Resize == May /\ \E d \in 0..2 :
             /\ cur' = UNION {ResizeTab[<<n, d>>] : n \in cur}
             /\ Did(<<"r", d>>) /\ UNCHANGED ok
(* each network is split the same way, those that are too small are kept; the    *)
(* ways of different networks are chosen together                                  *)
Needs == {<<1>>, <<2>>, <<1, 1>>, <<1, 2>>}
Ways(n, needs) == IF S!SpFits(n, needs) THEN SplitSets(n, needs) ELSE {{n}}
WaysTab == TLCEval([x \in Universe \X Needs |-> Ways(x[1], x[2])])
RECURSIVE Combine(_, _, _)
Combine(nets, needs, acc) ==
   IF nets = {} THEN acc
   ELSE LET n == CHOOSE n \in nets : TRUE
        IN  Combine(nets \ {n}, needs, {x \cup y : x \in acc, y \in WaysTab[<<n, needs>>]})
Split == May /\ \E needs \in Needs :
            /\ cur' \in Combine(cur, needs, {{}})
            /\ Did(<<"s">> \o needs) /\ UNCHANGED ok
Next == Minimize \/ Enumerate \/ Derange \/ Resize \/ Split
Spec == Init /\ [][Next]_vars

SameAddresses == Holds(cur) = Holds(orig)
SameMinimum == Maximal(Holds(cur)) = Maximal(Holds(orig))
Accepted == ok                                    \* the result of a mode is one its specification accepts
(* ... and --minimize has no choice (the list it may print is unique)           *)
OneMinimum == (hist = <<>> /\ Cardinality(Holds(orig)) <= 5) => MinLists(M!MiInit(orig)) = {Maximal(Holds(orig))}
NeverEmpty == cur # {}
Emit == (EMIT /\ Len(hist) = DEPTH) => PrintT("BEH " \o ToJson([nets |-> SetToSeq(orig), ops |-> hist]))
=============================================================================
