------------------------------ MODULE MC_Modes ------------------------------
(* do_main and the argument handling of every mode (src/main.rs, src/cmds)   *)
(* as coded, in the order in which it looks at its arguments, for every short *)
(* sequence of arguments of every kind, against Plan. Addresses are small.   *)
EXTENDS CodedText, Ripcalc, Json
CONSTANTS N, EMIT

SmallOctets == 2             \* replaces Octets and Groups
SmallGroups == 2

Kinds == <<"-m", "--minimize", "-d", "-s", "-r", "--enumerate", "--help", "--color-test",
           "net4", "net6", "lop4", "addr4", "addr6", "num", "wild", "big", "mask4", "wmask6", "bad", "empty">>
Texts == <<"-m", "--minimize", "-d", "-s", "-r", "--enumerate", "--help", "--color-test",
           "1.2/15", "1::/31", "9.0/255.1", "1.2", "::7", "14", "-3", "17", "255.0", "-::7", "1.2/-", "">>
Tok == TLCEval([i \in 1..Len(Texts) |-> IF Texts[i] = "" THEN <<>> ELSE Lit(Texts[i])])
CNet == TLCEval([i \in 1..Len(Texts) |-> CParseNet(Tok[i])])      \* parsed once
Net(i) == CNet[i]
CAddr == TLCEval([i \in 1..Len(Texts) |-> CParseAddr(Tok[i])])
CMask == TLCEval([i \in 1..Len(Texts) |-> [f \in {4, 6} |-> CTarget(Tok[i], f)]])
CCount == TLCEval([i \in 1..Len(Texts) |-> IsHostCount(Tok[i])])  \* BigInt::from_str, and < 0

VARIABLE a                   \* the arguments after the program's name, as numbers of tokens
Init == a = <<>> /\ Start
Next == Len(a) < N /\ (\E i \in 1..Len(Texts) : a' = Append(a, i)) /\ UNCHANGED rvars
Spec == Init /\ [][Next]_<<a, rvars>>

Fail == [m |-> "fail"]
Is(x) == Texts[a[1]] = x
Rest == Tail(a)

(* parse_same_family_netspecs: stops at the first that is malformed or of     *)
(* another family than the first.                                             *)
RECURSIVE SameFamily(_, _)
SameFamily(i, acc) ==
   IF i > Len(Rest) THEN [ok |-> TRUE, nets |-> acc]
   ELSE IF ~Net(Rest[i]).ok THEN [ok |-> FALSE]
   ELSE IF Net(Rest[i]).fam # Net(Rest[1]).fam THEN [ok |-> FALSE]
   ELSE SameFamily(i + 1, acc \cup {Net(Rest[i]).n})

CMinimize == IF Len(a) + 1 < 3 THEN Usage(1)
             ELSE LET r == SameFamily(1, {})
                  IN  IF r.ok THEN [m |-> "minimize", fam |-> Net(Rest[1]).fam, v |-> M!MiInit(r.nets)] ELSE Fail
CDerange == IF Len(a) + 1 # 4 THEN Usage(1)
            ELSE LET one == CAddr[a[2]]  other == CAddr[a[3]]
                 IN  IF ~one.ok THEN Fail ELSE IF ~other.ok THEN Fail
                     ELSE IF one.fam # other.fam THEN Fail
                     ELSE [m |-> "derange", fam |-> one.fam, v |-> D!DeInit(one.a, other.a)]
CSplit == IF Len(a) + 1 < 4 THEN Usage(1)
          ELSE IF \E i \in 3..Len(a) : ~CCount[a[i]] THEN Fail
          ELSE IF ~Net(a[2]).ok THEN Fail
          ELSE IF ~IsCidr(Net(a[2]).n) THEN Anything
          ELSE LET cs == [i \in 1..(Len(a) - 2) |-> HostCountDigits(Tok[a[i + 2]])]
               IN  [m |-> "split", counts |-> cs, ph |-> "head", n |-> Net(a[2]).n, k |-> 1, said |-> FALSE,
                    fits |-> S!SpFits(Net(a[2]).n, [i \in 1..Len(cs) |-> NeededHostBits(cs[i], Width(Net(a[2]).n))]),
                    v |-> S!SpInit(Net(a[2]).n, [i \in 1..Len(cs) |-> NeededHostBits(cs[i], Width(Net(a[2]).n))])]
CResize == IF Len(a) + 1 # 4 THEN Usage(1)
           ELSE IF ~Net(a[2]).ok THEN Fail
           ELSE LET k == CMask[a[3]][Net(a[2]).fam]
                IN  IF ~k.ok THEN Fail
                    ELSE [m |-> "resize", v |-> R!ReInit(Net(a[2]).n, k.m), ph |-> "head", n |-> Net(a[2]).n, k |-> 1]
RECURSIVE EachNet(_, _, _)
EachNet(i, ret, acc) == IF i > Len(a) THEN [m |-> "enumerate", bad |-> ret = 1, v |-> E!EnInit(acc)]
                        ELSE IF Net(a[i]).ok THEN EachNet(i + 1, ret, Append(acc, Net(a[i]).n))
                        ELSE EachNet(i + 1, 1, acc)
CEnumerate == IF Len(a) + 1 < 3 THEN Usage(1) ELSE EachNet(2, 0, <<>>)
CShowNet == IF \E i \in 1..Len(a) : ~Net(a[i]).ok THEN Fail
            ELSE [m |-> "show", items |-> [i \in 1..Len(a) |-> Net(a[i])], i |-> 1, k |-> 1]

CodedPlan ==
   IF Len(a) + 1 < 2 THEN Usage(1)
   ELSE IF Is("-m") \/ Is("--minimize") THEN CMinimize
   ELSE IF Is("-d") \/ Is("--derange") THEN CDerange
   ELSE IF Is("-s") \/ Is("--split") THEN CSplit
   ELSE IF Is("-r") \/ Is("--resize") THEN CResize
   ELSE IF Is("-e") \/ Is("--enumerate") THEN CEnumerate
   ELSE IF Is("--color-test") THEN [m |-> "colours", k |-> 1]
   ELSE IF Is("--help") THEN Usage(0)
   ELSE CShowNet

Planned == TLCEval(Plan([i \in 1..Len(a) |-> Tok[a[i]]]))
SamePlan == LET p == Planned IN (IF p.m = "error" THEN Fail ELSE p) = CodedPlan
(* Exactly the malformed and misused invocations end with status 1 and        *)
(* without output; nothing else prints the usage text.                        *)
FailsIff == (CodedPlan.m = "fail") <=> (Planned.m = "error" /\ Planned.why \in {"C03", "C18"})
Emit == EMIT => PrintT("BEH " \o ToJson([argv |-> [i \in 1..Len(a) |-> Kinds[a[i]]], plan |-> Planned.m]))
=============================================================================
