------------------------------ MODULE MC_Resize -----------------------------
(* resize_network (src/cmds/resize.rs) as coded, for every network and every *)
(* target mask of a small address space, against Resize, and against the     *)
(* meaning of resizing for contiguous masks.                                 *)
EXTENDS Coded, Resize, Json
CONSTANTS W, EMIT

VARIABLES orig, mask, q, out, at, pc
vars == <<orig, mask, q, out, at, pc>>

HostBitsOf(m) == Len(m) - CountOnes(m)
Init == /\ orig \in AllNets(W) /\ mask \in AllVecs(W)
        /\ q = ReInit(orig, mask) /\ out = <<>> /\ pc = "run"
        /\ at = Unravel(orig.b, orig.m)

Super == HostBitsOf(mask) > HostBits(orig)
Same  == HostBitsOf(mask) = HostBits(orig)
(* IpNetwork::new_with_mask(weave(...))                                        *)
Candidate == IF Super THEN MkNet(Weave(And(at, PrefixMask(W, CountOnes(mask))), mask), mask)
             ELSE MkNet(Weave(at, mask), mask)
Looping == Super \/ Same \/ Le(at, Unravel(CLast(orig), orig.m))

One == /\ pc = "run" /\ (Super \/ Same)
       /\ out' = <<Candidate>> /\ q' = ReNext(q) /\ pc' = "done" /\ UNCHANGED <<orig, mask, at>>
Sub == /\ pc = "run" /\ ~Super /\ ~Same /\ Looping
       /\ out' = Append(out, Candidate) /\ q' = ReNext(q)
       /\ LET nb == CNextBase(Candidate)
          IN  IF nb = None THEN pc' = "done" /\ UNCHANGED at
              ELSE at' = Unravel(nb, mask) /\ UNCHANGED pc
       /\ UNCHANGED <<orig, mask>>
Stop == /\ pc = "run" /\ ~Super /\ ~Same /\ ~Looping
        /\ pc' = "done" /\ UNCHANGED <<orig, mask, q, out, at>>
Next == One \/ Sub \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

PrintAllowed == (pc = "run" /\ Looping) => RePrint(q, Candidate) /\ Candidate = ReNet(q)
ExitAllowed == pc = "done" => ReStop(q)
KindAgrees == q.kind = (IF Super THEN "Supernet" ELSE IF Same THEN "Same" ELSE "Subnets")

Outs == {out[i] : i \in 1..Len(out)}
Ascending == \A i \in 1..(Len(out) - 1) : NetLt(out[i], out[i + 1])
(* Contiguous masks: subnets tile, supernets contain.                         *)
BothCidr == IsCidr(orig) /\ IsPrefixMask(mask)
Tiles == (pc = "done" /\ BothCidr) =>
   IF q.kind = "Supernet" THEN Len(out) = 1 /\ Superset(out[1], orig)
   ELSE IF q.kind = "Same" THEN out = <<orig>>
   ELSE /\ AddrsOf(Outs) = Addrs(orig)
        /\ Ascending
        /\ \A i, j \in 1..Len(out) : i < j => Disjoint(out[i], out[j])
        /\ Len(out) = 2 ^ (CountOnes(mask) - NetBits(orig))
HostBitsZero == \A i \in 1..Len(out) : And(out[i].b, Not(mask)) = Zeros(W)
(* Skipping k networks is passing them one by one.                            *)
SkipIsNext == \A k \in 1..(2 ^ W + 1) :
   LET s == ReSkip(q, k)
   IN  s.ok = (~q.done /\ ReSkip(ReNext(q), k - 1).ok) /\ (s.ok => s.v = ReSkip(ReNext(q), k - 1).v)
Ends == <>(pc = "done")
Emit == (EMIT /\ pc = "done") => PrintT("BEH " \o ToJson([orig |-> orig, mask |-> mask]))
=============================================================================
