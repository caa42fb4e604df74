------------------------------- MODULE Trace --------------------------------
(* Validates recorded runs of the real program against Ripcalc: each trace    *)
(* is one run (arguments, lines printed, exit), each of its events one step.  *)
(* An event that is no step of Ripcalc is reported by printing the clauses it *)
(* breaks; a trace whose remaining events cannot be judged then ends.         *)
EXTENDS Ripcalc, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t,   \* which run
          l    \* how many events of it have been consumed
tvars == <<phase, q, t, l>>

Run == Runs[t]
Events == Len(Run.out) + 2         \* invocation, one per line, exit

Tell(tags) == IF tags = {} THEN TRUE ELSE PrintT(<<"FAULT", Run.id, l, tags>>)

TraceInit == t \in 1..Len(Runs) /\ l = 0 /\ Start

TraceInvoke == l = 0 /\ l' = 1 /\ Invoke(Run.args) /\ UNCHANGED t

(* The line without its colours, and the clauses its colours break.           *)
Raw == Run.out[l]
Line == IF Run.col = 1 THEN Uncolour(Raw).txt ELSE Raw
ColourTags(line) ==
   IF Run.col = 0 THEN (IF Has(Raw, ESC) THEN {"C17.escape"} ELSE {})
   ELSE LET u == Uncolour(Raw)
            kind == IF ~("items" \in DOMAIN q /\ q.i <= Len(q.items)) THEN
                       (IF "ph" \in DOMAIN q /\ q.ph \in {"orig", "net"} /\ StartsWith(line, LitNetwork)
                        THEN "Block" ELSE "")
                    ELSE CASE q.k = 1 -> "Address" [] q.k = 2 -> "Netmask" [] q.k = 5 -> "Network" [] OTHER -> ""
            n == IF kind = "" THEN <<>>
                 ELSE IF kind = "Block" THEN (IF q.m = "split" /\ q.ph = "net" THEN NetworkOnLine(line, 0).n ELSE q.n)
                 ELSE q.items[q.i].n
        IN  (IF u.ok THEN {} ELSE {"C17.open"}) \cup
            (IF kind = "" \/ ColoursOK(IF kind = "Block" THEN "Network" ELSE kind, n, line, u.col) THEN {}
             ELSE {"C17.colour"})

TracePrint ==
   /\ l \in 1..Len(Run.out) /\ phase = "run"
   /\ LET line == TLCEval(Line)
          gap == line # <<>> /\ line[1] < 0            \* stands for that many lines
          o == TLCEval(IF gap THEN ObsGap(q, 0 - line[1]) ELSE Obs(q, line))
          c == TLCEval(IF gap \/ o.fatal THEN {} ELSE ColourTags(line))
          \* nothing that the selected mode could have printed first
          m == IF o.fatal /\ l = 1 THEN {"C18.mode"} ELSE {}
      IN  IF o.tags = {} /\ c = {} /\ ~o.fatal THEN Step(o) /\ l' = l + 1
          ELSE /\ Tell(o.tags \cup c \cup m)
               /\ phase' = IF o.fatal THEN "rejected" ELSE phase
               /\ q' = o.q
               /\ l' = l + 1
   /\ UNCHANGED t

(* The record of a run that printed very much stops in the middle of it.        *)
TraceCut ==
   /\ l = Len(Run.out) + 1 /\ phase = "run" /\ Run.cut = 1
   /\ Tell(IF Run.code = 101 THEN {"C04.crash", "any.crash"} ELSE {})
   /\ phase' = "exited" /\ l' = l + 1 /\ UNCHANGED <<t, q>>

TraceExit ==
   /\ l = Len(Run.out) + 1 /\ phase = "run" /\ Run.cut = 0
   /\ LET x == [code |-> Run.code, err |-> Run.err, usg |-> Run.usg]
          f == TLCEval(Fin(q, x))
      IN  IF f = {} THEN Stop(f)
          ELSE Tell(f) /\ phase' = "rejected" /\ UNCHANGED q
   /\ l' = l + 1 /\ UNCHANGED t

(* A rejected run that crashed is still reported as a crash.                   *)
TraceCrash ==
   /\ phase = "rejected" /\ l <= Len(Run.out) + 1
   /\ Tell(IF Run.code \in {0, 1} \/ (Run.cut = 1 /\ Run.code # 101) THEN {} ELSE {"C04.crash", "any.crash"})
   /\ phase' = "rejected" /\ l' = Len(Run.out) + 2 /\ UNCHANGED <<t, q>>

TraceNext == TraceInvoke \/ TracePrint \/ TraceCut \/ TraceExit \/ TraceCrash
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
