----------------------------- MODULE MC_Derange -----------------------------
(* range_to_subnets (src/cmds/derange.rs) as coded, for every range of a     *)
(* small address space, against Derange and against a count of the fewest    *)
(* networks by dynamic programming.                                          *)
EXTENDS Coded, Derange, Json
CONSTANTS W, EMIT

VARIABLES one, other, q,       \* the arguments; the state of the specification
          first, cur, out, pc  \* first_addr, current_subnet, ret
vars == <<one, other, q, first, cur, out, pc>>
lo == LoOf(one, other)
hi == HiOf(one, other)

Init == /\ one \in AllVecs(W) /\ other \in AllVecs(W)
        /\ q = DeInit(one, other)
        /\ first = LoOf(one, other)
        /\ cur = Cidr(LoOf(one, other), W)
        /\ out = <<>> /\ pc = "loop"

larger == Cidr(first, IF NetBits(cur) = 0 THEN 0 ELSE NetBits(cur) - 1)
beyond == NetBits(cur) = 0 \/ larger.b # first \/ Lt(hi, CLast(larger))

Grow == /\ pc = "loop" /\ Le(first, hi) /\ ~beyond
        /\ cur' = larger
        /\ UNCHANGED <<one, other, q, first, out, pc>>
Push == /\ pc = "loop" /\ Le(first, hi) /\ beyond
        /\ out' = Append(out, cur)
        /\ q' = DeNext(q, cur)
        /\ IF CNextBase(cur) = None
           THEN pc' = "done" /\ UNCHANGED <<first, cur>>
           ELSE first' = CNextBase(cur) /\ cur' = Cidr(CNextBase(cur), W) /\ UNCHANGED pc
        /\ UNCHANGED <<one, other>>
Exit == /\ pc = "loop" /\ ~Le(first, hi)
        /\ pc' = "done"
        /\ UNCHANGED <<one, other, q, first, cur, out>>
Next == Grow \/ Push \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Every push prints what the specification allows, which is one network.     *)
PushAllowed == (pc = "loop" /\ Le(first, hi) /\ beyond) => DePrint(q, cur)
OneAllowed == (~q.done => Cardinality({n \in AllCidrs(W) : DePrint(q, n)}) = 1)
ExitAllowed == pc = "done" => DeStop(q)
(* The printed networks are the range, and no list of networks is shorter.     *)
Exact == pc = "done" => AddrsOf({out[i] : i \in 1..Len(out)}) = {a \in AllVecs(W) : Le(lo, a) /\ Le(a, hi)}
(* Fewest(x..h): one aligned block from x on, and the fewest for what follows. *)
FewestOf(l, h) ==
   LET best(acc, x) ==                \* acc[k]: fewest for (x + k)..h
         LET K == {k \in 0..W : x % (2 ^ k) = 0 /\ x + (2 ^ k) - 1 <= h}
         IN  1 + MinOf({IF x + (2 ^ k) - 1 = h THEN 0 ELSE acc[2 ^ k] : k \in K})
       r == FoldLeft(LAMBDA acc, i : TLCEval(<<best(acc, h - i)>> \o acc), <<>>, [i \in 1..(h - l + 1) |-> i - 1])
   IN  r[1]
Fewest == pc = "done" => Len(out) = FewestOf(Val(lo), Val(hi))
Ends == <>(pc = "done")

Emit == (EMIT /\ pc = "done") => PrintT("BEH " \o ToJson([one |-> one, other |-> other, nets |-> out]))
=============================================================================
