---------------------------- MODULE MC_Enumerate ----------------------------
(* NetworkIter (src/cmds/enumerate.rs) as coded, for every network (and      *)
(* every mask) of a small address space, against Enumerate.                  *)
EXTENDS Coded, Enumerate, Json
CONSTANTS W, NETS, EMIT

VARIABLES nets, q, i, at, last, empty, pc
vars == <<nets, q, i, at, last, empty, pc>>

Begin(n) == /\ at' = Unravel(n.b, n.m) /\ last' = Unravel(CLast(n), n.m) /\ empty' = FALSE
Init == /\ nets \in UNION {[1..k -> AllNets(W)] : k \in 1..NETS}
        /\ q = EnInit(nets) /\ i = 1 /\ pc = "run"
        /\ at = Unravel(nets[1].b, nets[1].m) /\ last = Unravel(CLast(nets[1]), nets[1].m) /\ empty = FALSE

Exhausted == empty \/ Lt(last, at)
Out == Weave(at, nets[i].m)
Yield == /\ pc = "run" /\ ~Exhausted
         /\ IF AddOne(at) = None THEN empty' = TRUE /\ UNCHANGED at ELSE at' = AddOne(at) /\ UNCHANGED empty
         /\ q' = EnNext(q)
         /\ UNCHANGED <<nets, i, last, pc>>
NextArg == /\ pc = "run" /\ Exhausted
           /\ IF i < Len(nets) THEN i' = i + 1 /\ Begin(nets[i + 1]) /\ UNCHANGED pc
              ELSE pc' = "done" /\ UNCHANGED <<i, at, last, empty>>
           /\ UNCHANGED <<nets, q>>
Next == Yield \/ NextArg
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

YieldAllowed == (pc = "run" /\ ~Exhausted) => EnPrint(q, Out)
ExitAllowed == pc = "done" => EnStop(q)
(* The specification itself: every address printed is in the network, and    *)
(* the next one is the next larger element of the network.                   *)
NextIsNext == (q.i <= Len(q.nets)) =>
   LET n == q.nets[q.i]
       above == {a \in Addrs(n) : Lt(q.at, a)}
   IN  /\ InNet(n, q.at)
       /\ IF q.at = Bcast(n) THEN above = {}
          ELSE NextIn(n, q.at) \in above /\ \A a \in above : Le(NextIn(n, q.at), a)
FromFirst == (q.i <= Len(q.nets)) => \A a \in Addrs(q.nets[q.i]) : Le(q.nets[q.i].b, a)
(* Skipping k addresses is passing them one by one.                           *)
SkipIsNext == \A k \in 0..(2 ^ W + 1) :
   EnSkip(q, k) = IF k = 0 \/ EnStop(q) THEN [v |-> q, left |-> k] ELSE EnSkip(EnNext(q), k - 1)
Ends == <>(pc = "done")
Emit == (EMIT /\ pc = "done") => PrintT("BEH " \o ToJson([nets |-> nets]))
=============================================================================
