------------------------------ MODULE Ripcalc ------------------------------
(* One invocation of ripcalc as a state machine.                             *)
(*                                                                           *)
(*   Plan(argv)      the initial state: what the invocation is to do         *)
(*   Obs(q, line)    printing one line in state q: the next state, and the   *)
(*                   set of clauses the line breaks (empty: the step is      *)
(*                   allowed).  A clause is named "Cnn.what" after the       *)
(*                   property it belongs to.                                 *)
(*   Fin(q, x)       exiting in state q: the set of broken clauses           *)
(*                                                                           *)
(* A step with a non-empty set of broken clauses is not a step of the        *)
(* specification (see PrintLine and Exit); trace validation reports the names.   *)
EXTENDS Report

D == INSTANCE Derange
E == INSTANCE Enumerate
M == INSTANCE Minimize
R == INSTANCE Resize
S == INSTANCE Split

(* ---- which mode -------------------------------------------------------------- *)
LitModes == [x \in {"-m", "--minimize", "-d", "--derange", "-s", "--split", "-r", "--resize",
                    "-e", "--enumerate", "--help", "--color-test"} |-> Lit(x)]
ModeOf(a) ==
   CASE a = LitModes["-m"] \/ a = LitModes["--minimize"]  -> "minimize"
     [] a = LitModes["-d"] \/ a = LitModes["--derange"]   -> "derange"
     [] a = LitModes["-s"] \/ a = LitModes["--split"]     -> "split"
     [] a = LitModes["-r"] \/ a = LitModes["--resize"]    -> "resize"
     [] a = LitModes["-e"] \/ a = LitModes["--enumerate"] -> "enumerate"
     [] a = LitModes["--help"]                            -> "help"
     [] a = LitModes["--color-test"]                      -> "colours"
     [] OTHER                                             -> "show"

Usage(c)     == [m |-> "usage", code |-> c]
Malformed    == [m |-> "error", why |-> "C03"]
Misuse       == [m |-> "error", why |-> "C18"]
Anything     == [m |-> "any"]       \* what splitting a lopsided network gives is left open

ReadNets(as) == TLCEval([i \in 1..Len(as) |-> ReadNet(as[i])])
AnyBad(rs)   == \E i \in 1..Len(rs) : ~rs[i].ok

PlanShow(as) ==
   LET rs == ReadNets(as)
   IN  IF AnyBad(rs) THEN Malformed ELSE [m |-> "show", items |-> rs, i |-> 1, k |-> 1]

PlanMinimize(as) ==
   IF as = <<>> THEN Usage(1)
   ELSE LET rs == ReadNets(as)
        IN  IF AnyBad(rs) THEN Malformed
            ELSE IF \E i \in 1..Len(rs) : rs[i].fam # rs[1].fam THEN Misuse
            ELSE [m |-> "minimize", fam |-> rs[1].fam,
                  v |-> M!MiInit({rs[i].n : i \in 1..Len(rs)})]

PlanDerange(as) ==
   IF Len(as) # 2 THEN Usage(1)
   ELSE LET x == ReadAddr(as[1])  y == ReadAddr(as[2])
        IN  IF ~x.ok \/ ~y.ok THEN Malformed
            ELSE IF x.fam # y.fam THEN Misuse
            ELSE [m |-> "derange", fam |-> x.fam, v |-> D!DeInit(x.a, y.a)]

PlanEnumerate(as) ==
   IF as = <<>> THEN Usage(1)
   ELSE LET rs == ReadNets(as)
            good == SelectSeq(rs, LAMBDA r : r.ok)
        IN  [m |-> "enumerate", bad |-> AnyBad(rs),
             v |-> E!EnInit([i \in 1..Len(good) |-> good[i].n])]

PlanResize(as) ==
   IF Len(as) # 2 THEN Usage(1)
   ELSE LET r == ReadNet(as[1])
        IN  IF ~r.ok THEN Malformed
            ELSE LET k == ReadMask(as[2], r.fam)
                     \* the mask of the other family: readable as such
                     other == ReadMask(as[2], 10 - r.fam)
                 IN  IF k.ok
                     THEN [m |-> "resize", v |-> R!ReInit(r.n, k.m), ph |-> "head", n |-> r.n, k |-> 1]
                     ELSE IF other.ok /\ MaskFamily(as[2]) # 0 THEN Misuse ELSE Malformed

PlanSplit(as) ==
   IF Len(as) < 2 THEN Usage(1)
   ELSE LET r == ReadNet(as[1])
            counts == Tail(as)
        IN  IF ~r.ok \/ \E i \in 1..Len(counts) : ~IsHostCount(counts[i]) THEN Malformed
            ELSE IF ~IsCidr(r.n) THEN Anything
            ELSE LET cs == TLCEval([i \in 1..Len(counts) |-> HostCountDigits(counts[i])])
                     needs == TLCEval([i \in 1..Len(cs) |-> NeededHostBits(cs[i], Width(r.n))])
                 IN  [m |-> "split", counts |-> cs, ph |-> "head", n |-> r.n, k |-> 1, said |-> FALSE,
                      fits |-> S!SpFits(r.n, needs), v |-> S!SpInit(r.n, needs)]

Plan(argv) ==
   IF argv = <<>> THEN Usage(1)
   ELSE LET mode == ModeOf(argv[1])  as == Tail(argv)
        IN  CASE mode = "show"      -> PlanShow(argv)
              [] mode = "minimize"  -> PlanMinimize(as)
              [] mode = "derange"   -> PlanDerange(as)
              [] mode = "split"     -> PlanSplit(as)
              [] mode = "resize"    -> PlanResize(as)
              [] mode = "enumerate" -> PlanEnumerate(as)
              [] mode = "help"      -> Usage(0)
              [] mode = "colours"   -> [m |-> "colours", k |-> 1]

(* ---- printing one line --------------------------------------------------------- *)
OK(q) == [q |-> q, tags |-> {}, fatal |-> FALSE]
On(q, tags) == [q |-> q, tags |-> tags, fatal |-> FALSE]      \* broken, but the rest can be judged
Dead(q, tags) == [q |-> q, tags |-> tags, fatal |-> TRUE]     \* the rest cannot be judged

LitHead == [x \in {"Subnet to split:", "Original network:", "Supernet:", "Same-sized net:",
                   "Unused networks:", "Network is too small", "Subnet ", "Subnet for ", " hosts:", ":",
                   "Not enough addresses"} |-> Lit(x)]

(* Default mode *)
ShowTags(e, diff) ==
   (IF "label" \in diff THEN {"C01.label", "C15.label"} ELSE {}) \cup
   (IF "value" \in diff
    THEN {"C01.value"} \cup (IF e.kind = "Address" THEN {"C05.value"} ELSE {})
    ELSE {}) \cup
   (IF "form" \in diff THEN {"C05.form"} ELSE {}) \cup
   (IF "bits" \in diff THEN {"C15.bits"} ELSE {}) \cup
   (IF "class" \in diff THEN {"C16.class"} ELSE {}) \cup
   (IF "space" \in diff THEN {"C15.space"} ELSE {})

ObsShow(q, line) ==
   IF q.i > Len(q.items) THEN Dead(q, {"C15.extra", "C01.extra"})
   ELSE LET it == q.items[q.i]
            last == ReportLen(it.n)
        IN  IF q.k <= last
            THEN LET e == ReportLine(it.n, it.a, q.k)
                     diff == LineDiff(e, line)
                     nxt == IF q.k = last /\ q.i = Len(q.items) THEN [q EXCEPT !.i = @ + 1, !.k = 1]
                            ELSE [q EXCEPT !.k = @ + 1]
                 IN  IF "label" \in diff THEN Dead(nxt, ShowTags(e, diff)) ELSE On(nxt, ShowTags(e, diff))
            ELSE LET nxt == [q EXCEPT !.i = @ + 1, !.k = 1]     \* the blank line between two reports
                 IN  IF line = <<>> THEN OK(nxt) ELSE Dead(nxt, {"C15.blank"})

(* A line that should be a network of the family.                                 *)
ObsNet(fam, line, Judge(_), prop) ==
   LET r == ReadNet(line)
   IN  IF ~r.ok THEN [tags |-> {prop \o ".unreadable", "C05.unreadable"}, ok |-> FALSE]
       ELSE IF r.fam # fam \/ r.a # r.n.b THEN [tags |-> {prop \o ".network"}, ok |-> FALSE]
       ELSE [tags |-> Judge(r.n) \cup (IF line # NetText(r.n) THEN {"C05.form"} ELSE {}), ok |-> TRUE, n |-> r.n]

ObsMinimize(q, line) ==
   LET J(n) == (IF M!MiAscends(q.v, n) THEN {} ELSE {"C07.order"}) \cup
               (IF M!MiOnlyGiven(q.v, n) THEN {} ELSE {"C06.extra"})
       o == ObsNet(q.fam, line, J, "C06")
   IN  IF ~o.ok THEN Dead(q, o.tags) ELSE On([q EXCEPT !.v = M!MiNext(@, o.n)], o.tags)

ObsDerange(q, line) ==
   LET J(n) == (IF D!DeStarts(q.v, n) THEN {} ELSE {"C08.start"}) \cup
               (IF D!DeWithin(q.v, n) THEN {} ELSE {"C08.beyond"}) \cup
               (IF ~D!DeStarts(q.v, n) \/ D!DeLargest(q.v, n) THEN {} ELSE {"C09.larger"})
       o == ObsNet(q.fam, line, J, "C08")
   IN  IF ~o.ok \/ "C08.start" \in o.tags \/ "C08.beyond" \in o.tags THEN Dead(q, o.tags)
       ELSE On([q EXCEPT !.v = D!DeNext(@, o.n)], o.tags)

ObsEnumerate(q, line) ==
   IF E!EnStop(q.v) THEN Dead(q, {"C14.extra"} \cup IF q.bad THEN {"C03.output"} ELSE {})
   ELSE LET nxt == [q EXCEPT !.v = E!EnNext(@)]
        IN  IF line = AddrText(q.v.at) THEN OK(nxt)
            ELSE LET r == ReadAddr(line)
                 IN  IF r.ok /\ r.a = q.v.at THEN On(nxt, {"C05.form"})
                     ELSE Dead(nxt, {"C14.address", "C05.value"} \cup IF q.bad THEN {"C03.output"} ELSE {})

(* A block of a network's report below a heading, in --resize and --split.        *)
BlockTags(e, diff, prop) ==
   (IF "value" \in diff THEN (IF e.kind = "Network" THEN {prop \o ".network"} ELSE {"C15.block"}) ELSE {}) \cup
   (IF "form" \in diff THEN {"C05.form"} ELSE {}) \cup
   (IF "class" \in diff THEN {"C16.class"} ELSE {}) \cup
   (IF diff \cap {"label", "bits", "space"} # {} THEN {"C15.block"} ELSE {})

(* Whether a heading or blank line is as specified.                               *)
Heading(q, line, want, nxt, tags) == IF line = want THEN OK(nxt) ELSE Dead(nxt, tags)

ReProps(q) == IF IsCidr(q.v.orig) /\ IsPrefixMask(q.v.mask) THEN {"C12", "C13"} ELSE {"C13"}
ReTags(q, what) == {p \o what : p \in ReProps(q)}

ObsResize(q, line) ==
   CASE q.ph = "head" ->
          Heading(q, line, LitHead["Original network:"], [q EXCEPT !.ph = "orig", !.k = 1], ReTags(q, ".heading"))
     [] q.ph \in {"orig", "net"} ->
          LET e == BlockLine(q.n, q.k)
              diff == LineDiff(e, line)
              tags == UNION {BlockTags(e, diff, p) : p \in ReProps(q)}
              nxt == [q EXCEPT !.k = @ + 1, !.ph = IF q.k = BlockLen(q.n) THEN q.ph \o "-blank" ELSE q.ph]
          IN  IF "label" \in diff THEN Dead(nxt, tags \cup ReTags(q, ".block")) ELSE On(nxt, tags)
     [] q.ph \in {"orig-blank", "net-blank"} ->
          Heading(q, line, <<>>,
               [q EXCEPT !.ph = "next", !.v = IF q.ph = "net-blank" THEN R!ReNext(@) ELSE @],
               {"C15.blank"})
     [] q.ph = "next" ->
          IF R!ReStop(q.v) THEN Dead(q, ReTags(q, ".extra"))
          ELSE LET want == CASE q.v.kind = "Supernet" -> LitHead["Supernet:"]
                             [] q.v.kind = "Same" -> LitHead["Same-sized net:"]
                             [] q.v.kind = "Subnets" -> LitHead["Subnet "] \o DecText(q.v.i) \o LitHead[":"]
               IN  Heading(q, line, want, [q EXCEPT !.ph = "net", !.n = R!ReNet(q.v), !.k = 1], ReTags(q, ".heading"))

(* --split: the line after the heading names the allocated network.               *)
NetworkOnLine(line, fam) ==
   LET ws == Words(line)
   IN  IF Len(ws) < 2 \/ ws[1] # LitNetwork THEN Bad ELSE ReadNet(ws[2])
CountText(c) == IF Significant(c) = <<>> THEN <<48>> ELSE Significant(c)

ObsSplit(q, line) ==
   LET fits == q.fits
   IN
   CASE q.ph = "head" ->
          Heading(q, line, LitHead["Subnet to split:"], [q EXCEPT !.ph = "orig", !.k = 1], {"C10.heading", "C15.label"})
     [] q.ph = "orig" \/ (q.ph = "net" /\ q.k > 1) ->
          LET e == BlockLine(q.n, q.k)
              diff == LineDiff(e, line)
              tags == BlockTags(e, diff, "C10")
              nxt == [q EXCEPT !.k = @ + 1, !.ph = IF q.k = BlockLen(q.n) THEN q.ph \o "-blank" ELSE q.ph]
          IN  IF "label" \in diff THEN Dead(nxt, tags \cup {"C10.block"}) ELSE On(nxt, tags)
     [] q.ph \in {"orig-blank", "net-blank"} ->
          Heading(q, line, <<>>, [q EXCEPT !.ph = "next"], {"C15.blank"})
     [] q.ph = "next" /\ StartsWith(line, LitHead["Not enough addresses"]) ->
          IF fits \/ q.v.alloc # <<>> THEN Dead(q, {"C10.refused", "C04.refused"})
          ELSE OK([q EXCEPT !.ph = "end", !.said = TRUE])
     [] q.ph = "next" /\ ~S!SpAllocated(q.v) ->
          Heading(q, line, LitHead["Subnet for "] \o CountText(q.counts[Len(q.v.alloc) + 1]) \o LitHead[" hosts:"],
               [q EXCEPT !.ph = "net", !.k = 1], {"C10.heading"})
     [] q.ph = "net" /\ q.k = 1 ->
          LET r == NetworkOnLine(line, 0)
          IN  IF ~r.ok THEN Dead(q, {"C10.unreadable", "C15.block"})
              ELSE IF Width(r.n) # Width(q.v.net) \/ r.a # r.n.b THEN Dead(q, {"C10.network"})
              ELSE LET diff == LineDiff(BlockLine(r.n, 1), line)
                       tags == (IF S!SpRightSize(q.v, r.n) THEN {} ELSE {"C10.size"}) \cup
                               (IF S!SpSeparate(q.v, r.n) THEN {} ELSE {"C10.overlap"}) \cup
                               (IF ~fits \/ S!SpInside(q.v, r.n) THEN {} ELSE {"C10.outside"}) \cup
                               (IF "form" \in diff THEN {"C05.form"} ELSE {}) \cup
                               (IF diff \ {"form"} # {} THEN {"C15.block"} ELSE {})
                   IN  On([q EXCEPT !.n = r.n, !.k = 2, !.v = S!SpNextAlloc(@, r.n)], tags)
     [] q.ph = "next" /\ S!SpAllocated(q.v) ->
          IF line = LitHead["Unused networks:"]
          THEN IF fits THEN OK([q EXCEPT !.ph = "unused"]) ELSE Dead(q, {"C10.unfit"})
          ELSE IF StartsWith(line, LitHead["Network is too small"])
          THEN IF fits THEN Dead(q, {"C10.refused"}) ELSE OK([q EXCEPT !.ph = "end", !.said = TRUE])
          ELSE Dead(q, {"C11.heading"})
     [] q.ph = "unused" ->
          LET J(n) == (IF S!SpFree(q.v, n) THEN {} ELSE {"C11.notfree"}) \cup
                      (IF S!SpAscends(q.v, n) THEN {} ELSE {"C11.order"})
              o == ObsNet(IF Width(q.v.net) = 32 THEN 4 ELSE 6, line, J, "C11")
          IN  IF ~o.ok THEN Dead(q, o.tags) ELSE On([q EXCEPT !.v = S!SpNextUnused(@, o.n)], o.tags)
     [] OTHER -> Dead(q, {"C10.extra"})

(* --color-test: the names of the colours in columns, on one line that is not     *)
(* ended (a zero marks that in the record).                                       *)
LitColours == [i \in 1..16 |-> Lit(<<"Black", "DarkBlue", "DarkGreen", "DarkCyan", "DarkRed", "DarkMagenta", "DarkYellow", "Gray",
                                    "DarkGray", "Blue", "Green", "Cyan", "Red", "Magenta", "Yellow", "White">>[i])]
LitPalette == TLCEval(Join([i \in 1..16 |-> PadTo(LitColours[i], 20)], <<>>)) \o <<0>>
ObsColours(q, line) ==
   IF q.k = 1 /\ line = LitPalette THEN OK([q EXCEPT !.k = 2]) ELSE Dead(q, {"C17.palette"})

(* A gap in the record: k lines of which it is only known how many they were.  *)
(* Gaps are left in long enumerations and between the subnets of a resizing.   *)
ObsGap(q, k) ==
   CASE q.m = "enumerate" ->
          LET s == TLCEval(E!EnSkip(q.v, k))
          IN  IF s.left = 0 THEN OK([q EXCEPT !.v = s.v]) ELSE Dead(q, {"C14.extra"})
     [] q.m = "resize" /\ q.ph \in {"next", "net", "net-blank"} /\ ~(q.ph = "next" /\ R!ReStop(q.v)) ->
          LET n == TLCEval(R!ReNet(q.v))
              len == BlockLen(n) + 2                       \* the heading, the network, a blank line
              at == (CASE q.ph = "next" -> 0 [] q.ph = "net" -> q.k [] q.ph = "net-blank" -> len - 1) + k
              s == TLCEval(R!ReSkip(q.v, at \div len))
              p == at % len
          IN  IF ~s.ok \/ (p > 0 /\ s.v.done) THEN Dead(q, ReTags(q, ".extra"))
              ELSE OK(IF p = 0 THEN [q EXCEPT !.v = s.v, !.ph = "next"]
                      ELSE [q EXCEPT !.v = s.v, !.n = R!ReNet(s.v), !.k = p, !.ph = IF p = len - 1 THEN "net-blank" ELSE "net"])
     [] OTHER -> Dead(q, {})

Obs(q, line) ==
   CASE q.m = "any"       -> OK(q)
     [] q.m = "colours"   -> ObsColours(q, line)
     [] q.m = "usage"     -> IF q.code = 0 THEN OK(q) ELSE Dead(q, {"C18.output"})
     [] q.m = "error"     -> Dead(q, {q.why \o ".output"})
     [] q.m = "show"      -> ObsShow(q, line)
     [] q.m = "minimize"  -> ObsMinimize(q, line)
     [] q.m = "derange"   -> ObsDerange(q, line)
     [] q.m = "enumerate" -> ObsEnumerate(q, line)
     [] q.m = "resize"    -> ObsResize(q, line)
     [] q.m = "split"     -> ObsSplit(q, line)

(* ---- exiting ---------------------------------------------------------------------- *)
(* x: code (256 + n when killed by signal n), err: something on standard error,     *)
(* usg: the usage text was printed.                                                  *)
Crashed(x) == x.code # 0 /\ x.code # 1

Wants0(x) == IF x.code = 0 THEN {} ELSE {"C04.exit", "any.exit"}
Wants1(x, p) == (IF x.code = 1 THEN {} ELSE {p \o ".exit"}) \cup
                (IF x.err = 1 THEN {} ELSE {p \o ".silent"} \cup (IF x.code = 1 THEN {"C04.silent"} ELSE {}))

FinMode(q, x) ==
   CASE q.m = "any"       -> {}
     [] q.m = "colours"   -> Wants0(x) \cup (IF q.k = 2 THEN {} ELSE {"C17.palette"})
     [] q.m = "usage"     -> IF q.code = 1 THEN Wants1(x, "C18") \cup (IF x.usg = 1 THEN {} ELSE {"C18.nousage"})
                             ELSE (IF x.code = 0 THEN {} ELSE {"C18.exit"}) \cup
                                  (IF x.usg = 1 THEN {} ELSE {"C18.nousage"})
     [] q.m = "error"     -> Wants1(x, q.why)
     [] q.m = "show"      -> Wants0(x) \cup
                             (IF q.i > Len(q.items) THEN {} ELSE {"C15.incomplete", "C01.incomplete", "any.incomplete"})
     [] q.m = "minimize"  -> Wants0(x) \cup
                             (IF M!MiCovers(q.v) THEN {} ELSE {"C06.missing"}) \cup
                             (IF M!MiUnnested(q.v) THEN {} ELSE {"C07.nested"}) \cup
                             (IF M!MiUnmerged(q.v) THEN {} ELSE {"C07.mergeable"}) \cup
                             (IF M!MiCidrs(q.v) THEN {} ELSE {"C07.lopsided"})
     [] q.m = "derange"   -> Wants0(x) \cup (IF D!DeStop(q.v) THEN {} ELSE {"C08.incomplete", "any.incomplete"})
     [] q.m = "enumerate" -> (IF q.bad THEN Wants1(x, "C03") ELSE Wants0(x)) \cup
                             (IF E!EnStop(q.v) THEN {} ELSE {"C14.incomplete", "any.incomplete"} \cup
                                                            (IF q.bad THEN {"C03.incomplete"} ELSE {}))
     [] q.m = "resize"    -> Wants0(x) \cup
                             (IF q.ph = "next" /\ R!ReStop(q.v) THEN {}
                              ELSE ReTags(q, ".incomplete") \cup {"any.incomplete"})
     [] q.m = "split"     ->
          IF ~q.fits
          THEN (IF q.said THEN {} ELSE {"C10.unfit"}) \cup
               (IF x.code \in {0, 1} THEN {} ELSE {"C04.exit"}) \cup
               (IF x.code = 1 /\ x.err = 0 /\ ~q.said THEN {"C04.silent"} ELSE {})
          ELSE Wants0(x) \cup
               (IF S!SpAllocated(q.v) /\ q.ph \in {"next", "unused"} THEN {} ELSE {"C10.incomplete", "any.incomplete"}) \cup
               (IF S!SpComplete(q.v) THEN {} ELSE {"C11.missing"}) \cup
               (IF S!SpFewest(q.v) THEN {} ELSE {"C11.mergeable"})

Fin(q, x) == FinMode(q, x) \cup
             (IF q.m # "usage" /\ x.usg = 1 /\ ~(q.m = "error" /\ x.code = 1) THEN {"C18.usage"} ELSE {}) \cup (IF Crashed(x) THEN {"C04.crash", "any.crash"} ELSE {})

(* ---- the state machine ---------------------------------------------------------------- *)
VARIABLES phase,   \* "new", "run", "exited"
          q        \* what is still to be printed, and what has been
rvars == <<phase, q>>

Start == phase = "new" /\ q = [m |-> "none"]
Invoke(argv) == phase = "new" /\ phase' = "run" /\ q' = Plan(argv)
(* o: the outcome of Obs, f: the outcome of Fin                                          *)
Step(o) == phase = "run" /\ o.tags = {} /\ q' = o.q /\ UNCHANGED phase
PrintLine(line) == LET o == TLCEval(Obs(q, line)) IN Step(o)
Stop(f) == phase = "run" /\ f = {} /\ phase' = "exited" /\ UNCHANGED q
Exit(x) == Stop(Fin(q, x))
============================================================================
