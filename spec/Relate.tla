------------------------------- MODULE Relate -------------------------------
(* What several runs of the program have to do with each other.               *)
(*                                                                            *)
(* "same"   all runs request the same thing (the specification plans the same *)
(*          for their arguments), so they print the same, colours aside, and  *)
(*          exit alike; with clause C20, whose runs have the same arguments   *)
(*          in different surroundings, also where the specification leaves    *)
(*          open what is printed.                                             *)
(* "chain"  runs whose arguments are what earlier ones printed (links), and   *)
(*          the claims about such a chain: two runs print the same networks   *)
(*          (equal), a report names the networks it was given (names), a      *)
(*          range goes from the network to the broadcast address of a report  *)
(*          (ends), all that runs printed can be given to another (reads),    *)
(*          and enumerations list the same addresses (members).               *)
(* Each step of the machine below accepts one run of a group, or one link or  *)
(* claim of a chain; a step that is not accepted is reported as a FAULT.      *)
EXTENDS Ripcalc, Json, IOUtils

Recorded == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES g, k
gvars == <<g, k, phase, q>>
G == Recorded[g]

Plain(run) == IF run.col = 1 THEN [i \in 1..Len(run.out) |-> Uncolour(run.out[i]).txt] ELSE run.out

(* ---- the same request ------------------------------------------------------- *)
SameRequest(i) == IF G.clause = "C20.same" THEN G.runs[i].args = G.runs[1].args
                  ELSE Plan(G.runs[i].args) = Plan(G.runs[1].args)
SameResult(i) == LET x == G.runs[1]  y == G.runs[i]
                 IN  Plain(x) = Plain(y) /\ x.lines = y.lines /\ x.code = y.code /\ x.err = y.err /\ x.usg = y.usg

(* ---- chains ------------------------------------------------------------------- *)
(* The networks a run printed, as arguments.                                       *)
WordsAt(lines, label) ==
   [i \in 1..Len(lines) |-> LET ws == Words(lines[i]) IN IF Len(ws) > 1 /\ ws[1] = label THEN ws[2] ELSE <<>>]
Filled(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
AfterUnused(lines) ==
   LET at == {i \in 1..Len(lines) : lines[i] = LitHead["Unused networks:"]}
   IN  IF at = {} THEN <<>> ELSE SubSeq(lines, MinOf(at) + 1, Len(lines))
Printed(run) ==
   LET m == IF run.args = <<>> THEN "show" ELSE ModeOf(run.args[1])
       nets == Filled(WordsAt(run.out, LitNetwork))
       rest == IF nets = <<>> THEN <<>> ELSE Tail(nets)
   IN  CASE m \in {"minimize", "derange"} -> run.out
         [] m = "enumerate" -> [i \in 1..Len(run.out) |-> run.out[i] \o (IF Has(run.out[i], COLON) THEN Lit("/128") ELSE Lit("/32"))]
         [] m = "resize" -> rest
         [] m = "split" -> rest \o AfterUnused(run.out)
         [] OTHER -> nets
(* Its arguments after the option.                                                 *)
Operands(run) == IF run.args # <<>> /\ ModeOf(run.args[1]) = "show" THEN run.args ELSE Tail(run.args)
(* ... without the host counts or the target mask; the ends of a range stand for     *)
(* the network from one to the other.                                                *)
Networks(run) ==
   LET ops == Operands(run)
   IN  IF run.args # <<>> /\ ModeOf(run.args[1]) = "derange" /\ Len(ops) = 2
       THEN LET x == ReadAddr(ops[1])  y == ReadAddr(ops[2])
            IN  IF x.ok /\ y.ok /\ Len(x.a) = Len(y.a)
                THEN <<NetText(MkNet(LoOf(x.a, y.a), Not(Xor(x.a, y.a))))>> ELSE <<>>
       ELSE SelectSeq(ops, LAMBDA x : Has(x, SLASH))

Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
Of(F(_), ids) == Concat([i \in 1..Len(ids) |-> F(G.runs[ids[i]])])
(* The runs ln[1] together are given what the runs ln[2] together printed.          *)
Denoted(ss) == [i \in 1..Len(ss) |-> ReadNet(ss[i])]
SameNets(ss, ts) == ss = ts \/ (Len(ss) = Len(ts) /\ Denoted(ss) = Denoted(ts) /\ \A i \in 1..Len(ss) : ReadNet(ss[i]).ok)
Linked(ln) == SameNets(Of(Networks, ln[1]), Of(Printed, ln[2]))
(* The operands of run b[1] are those of the runs b[2] to b[3] together.            *)
Based(b) == SameNets(Networks(G.runs[b[1]]), Of(Networks, [i \in 1..(b[3] - b[2] + 1) |-> b[2] + i - 1]))
EqualOut(p) == LET x == G.runs[p[1]]  y == G.runs[p[2]] IN x.out = y.out /\ x.code = 0 /\ y.code = 0

(* The report names the network given, which is written as the program does.        *)
Names(p) == LET x == G.runs[p[1]]  y == G.runs[p[2]]
                want == Printed(x)
                got == Filled(WordsAt(y.out, LitNetwork))
                masks == Filled(WordsAt(y.out, LitNetmask))
            IN  /\ y.code = 0 /\ Len(got) = Len(want) /\ Len(masks) = Len(want)
                /\ \A i \in 1..Len(want) :
                      LET r == ReadNet(want[i])
                      IN  /\ r.ok
                          /\ got[i] = (IF IsCidr(r.n) THEN NetText(r.n) ELSE AddrText(r.n.b))
                          /\ masks[i] = AddrText(r.n.m)
(* The derange run goes from the network address to the broadcast address shown.    *)
Ends(p) == LET x == G.runs[p[1]]  y == G.runs[p[2]]
               net == Filled(WordsAt(x.out, LitNetwork))
               bc == Filled(WordsAt(x.out, LitBroadcast))
           IN  /\ Len(net) = 1 /\ Len(bc) = 1 /\ y.code = 0
               /\ Operands(y) = <<SplitAt(net[1], SLASH)[1], bc[1]>>

(* The runs d[1] printed networks, at most d[2] each, as they are written.           *)
Reads(d) == \A i \in 1..Len(d[1]) :
   LET run == G.runs[d[1][i]]  p == Printed(run)
   IN  /\ run.code = 0 /\ Len(p) \in 1..d[2]
       /\ \A j \in 1..Len(p) : LET r == ReadNet(p[j]) IN r.ok /\ p[j] = NetText(r.n)
(* The enumerations m[1] together list the addresses that those of m[2] list.        *)
Lines(ids) == UNION {LET run == G.runs[ids[i]] IN {run.out[j] : j \in 1..Len(run.out)} : i \in 1..Len(ids)}
Members(m) == Lines(m[1]) = Lines(m[2])

Steps == IF G.kind = "same" THEN Len(G.runs)
         ELSE Len(G.links) + Len(G.base) + Len(G.equal) + Len(G.names) + Len(G.ends) + Len(G.reads) + Len(G.members)
Accepts(i) ==
   IF G.kind = "same" THEN (IF SameRequest(i) THEN (IF SameResult(i) THEN {} ELSE {G.clause}) ELSE {"tool.request"})
   ELSE LET a == Len(G.links)  b == a + Len(G.base)  c == b + Len(G.equal)  d == c + Len(G.names)
            e == d + Len(G.ends)  f == e + Len(G.reads)
        IN  CASE i <= a             -> IF Linked(G.links[i]) THEN {} ELSE {G.clause}
              [] i > a /\ i <= b    -> IF Based(G.base[i - a]) THEN {} ELSE {"tool.base"}
              [] i > b /\ i <= c    -> IF EqualOut(G.equal[i - b]) THEN {} ELSE {G.clause}
              [] i > c /\ i <= d    -> IF Names(G.names[i - c]) THEN {} ELSE {G.clause}
              [] i > d /\ i <= e    -> IF Ends(G.ends[i - d]) THEN {} ELSE {G.clause}
              [] i > e /\ i <= f    -> IF Reads(G.reads[i - e]) THEN {} ELSE {G.clause}
              [] i > f              -> IF Members(G.members[i - f]) THEN {} ELSE {G.clause}

RelInit == g \in 1..Len(Recorded) /\ k = 0 /\ Start
RelStep == /\ k < Steps /\ k' = k + 1
           /\ LET f == TLCEval(Accepts(k + 1)) IN IF f = {} THEN TRUE ELSE PrintT(<<"FAULT", G.id, k + 1, f>>)
           /\ UNCHANGED <<g, phase, q>>
RelSpec == RelInit /\ [][RelStep]_gvars
============================================================================
