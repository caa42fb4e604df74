----------------------------- MODULE CodedText -----------------------------
(* The reading and printing of addresses, networks and target masks as coded  *)
(* in src/addr.rs, src/cmds/mod.rs and src/cmds/resize.rs, statement by       *)
(* statement, for addresses of any number of parts (Octets, Groups). MC_Text  *)
(* checks that it is what Text defines.                                       *)
EXTENDS Text

CErr == [ok |-> FALSE]
CCrash == [ok |-> TRUE, crash |-> TRUE]          \* equal to nothing Text defines

(* from_str / from_str_radix of the unsigned integers: a sign is accepted.    *)
RustNumber(s) == IF s # <<>> /\ s[1] = PLUS THEN Tail(s) ELSE s
RustDec(s) == LET t == RustNumber(s) IN IF AllDigits(t) THEN DecVal(t) ELSE -1
RustHex16(s) ==
   LET t == RustNumber(s)
   IN  IF t = <<>> \/ \E i \in 1..Len(t) : HexVal(t[i]) < 0 THEN -1
       ELSE IF Len(Significant(t)) > 4 THEN -1 ELSE HexValue(Significant(t), 1, 0)

(* impl FromStr for Ipv4Address *)
C4Parse(s) ==
   LET chunks == SplitAt(s, DOT)
       each(k) == LET c == chunks[k]
                  IN  IF c = <<>> THEN -1
                      ELSE IF c[1] = PLUS THEN -1
                      ELSE IF RustDec(c) < 0 \/ RustDec(c) > 255 THEN -1
                      ELSE RustDec(c)
   IN  IF Len(chunks) # Octets THEN CErr
       ELSE IF \E k \in 1..Octets : each(k) < 0 THEN CErr
       ELSE [ok |-> TRUE, fam |-> 4, a |-> FoldLeft(LAMBDA acc, k : TLCEval(acc \o OctetBits(each(k))), <<>>, [k \in 1..Octets |-> k])]

(* impl FromStr for Ipv6Address *)
CC == <<COLON, COLON>>
C6Chunks(s) ==
   LET s1 == IF s # <<>> /\ s[1] = COLON THEN <<48>> \o s ELSE s
       s2 == IF s1 # <<>> /\ s1[Len(s1)] = COLON THEN s1 \o <<48>> ELSE s1
   IN  SplitAt(s2, COLON)
C6Parse(s) ==
   LET chunks == C6Chunks(s)
       n == Len(chunks)
       maxChunks == IF StartsWith(s, CC) \/ EndsWith(s, CC) THEN Groups + 1 ELSE Groups
       empty == {k \in 1..n : chunks[k] = <<>>}
       front == IF empty = {} THEN n ELSE MinOf(empty) - 1     \* copied from the front
       back == IF empty = {} THEN n ELSE n - MaxOf(empty)      \* copied from the back
       actual(k) == IF empty = {} THEN chunks[k]
                    ELSE IF Groups - k < back THEN chunks[n - (Groups - k)]     \* overwrites
                    ELSE IF k <= front THEN chunks[k] ELSE <<48>>
       value(k) == LET c == actual(k) IN IF c # <<>> /\ c[1] = PLUS THEN -1 ELSE RustHex16(c)
   IN  IF n > maxChunks THEN CErr
       ELSE IF Cardinality(empty) > 1 THEN CErr
       ELSE IF empty = {} /\ n # Groups THEN CErr
       ELSE IF empty # {} /\ (front > Groups \/ back > Groups) THEN CCrash  \* index out of bounds
       ELSE IF StartsWith(s, <<COLON>>) /\ ~StartsWith(s, CC) THEN CErr
       ELSE IF EndsWith(s, <<COLON>>) /\ ~EndsWith(s, CC) THEN CErr
       ELSE IF \E k \in 1..Groups : value(k) < 0 THEN CErr
       ELSE [ok |-> TRUE, fam |-> 6, a |-> TLCEval(GroupBits(TLCEval([k \in 1..Groups |-> value(k)]), 1))]

(* cmds/mod.rs: parse_addr *)
CParseAddr(s) ==
   IF Has(s, DOT) THEN (IF Has(s, COLON) THEN CErr ELSE C4Parse(s))
   ELSE IF Has(s, COLON) THEN C6Parse(s)
   ELSE CErr

(* The four regular expressions. None of their classes has a slash or a dash. *)
RxV4(s) == LET ch == SplitAt(s, DOT) IN Len(ch) = Octets /\ \A k \in 1..Octets : AllDigits(ch[k])
RxV6(s) == s # <<>> /\ \A i \in 1..Len(s) : HexVal(s[i]) >= 0 \/ s[i] = COLON
RxParts(s) ==             \* ^addr/-?rest$
   LET ch == SplitAt(s, SLASH)
   IN  IF Len(ch) # 2 THEN [ok |-> FALSE]
       ELSE LET w == ch[2] # <<>> /\ ch[2][1] = DASH
            IN  [ok |-> TRUE, addr |-> ch[1], wild |-> w, rest |-> IF w THEN Tail(ch[2]) ELSE ch[2]]

(* parse_netspec *)
CParseNet(s) ==
   LET p == RxParts(s)
       byMask(r, k) == IF ~r.ok \/ ~k.ok THEN CErr
                       ELSE IF "crash" \in DOMAIN r \cup DOMAIN k THEN CCrash
                       ELSE [ok |-> TRUE, fam |-> r.fam, a |-> r.a,
                             n |-> MkNet(r.a, IF p.wild THEN Not(k.a) ELSE k.a)]
       byPrefix(r, w) == IF ~r.ok THEN CErr
                         ELSE IF "crash" \in DOMAIN r THEN CCrash
                         ELSE LET c == RustDec(p.rest)
                              IN  IF c < 0 \/ c > w THEN CErr
                                  ELSE [ok |-> TRUE, fam |-> r.fam, a |-> r.a,
                                        n |-> MkNet(r.a, PrefixMask(w, IF p.wild THEN w - c ELSE c))]
   IN  IF ~p.ok THEN CErr
       ELSE IF RxV4(p.addr) /\ RxV4(p.rest) THEN byMask(C4Parse(p.addr), C4Parse(p.rest))
       ELSE IF RxV4(p.addr) /\ AllDigits(p.rest) THEN byPrefix(C4Parse(p.addr), V4Width)
       ELSE IF RxV6(p.addr) /\ RxV6(p.rest) /\ Has(p.rest, COLON) THEN byMask(C6Parse(p.addr), C6Parse(p.rest))
       ELSE IF RxV6(p.addr) /\ AllDigits(p.rest) THEN byPrefix(C6Parse(p.addr), V6Width)
       ELSE CErr

(* parse_subnet: a number (of host bits), or a mask                           *)
CSub1(s) ==
   IF Has(s, COLON) THEN LET r == C6Parse(s) IN IF r.ok THEN [k |-> "m6", a |-> r] ELSE [k |-> "err"]
   ELSE IF Has(s, DOT) THEN LET r == C4Parse(s) IN IF r.ok THEN [k |-> "m4", a |-> r] ELSE [k |-> "err"]
   ELSE IF s # <<>> /\ s[1] = PLUS THEN [k |-> "err"]
   ELSE IF RustDec(s) < 0 THEN [k |-> "err"] ELSE [k |-> "cidr", c |-> RustDec(s)]
CNeg(r) == IF "crash" \in DOMAIN r THEN r ELSE [r EXCEPT !.a = Not(@)]
CParseSubnet(s) ==
   IF StartsWith(s, <<DASH, DASH>>) THEN [k |-> "err"]
   ELSE IF s # <<>> /\ s[1] = DASH
   THEN LET r == CSub1(Tail(s))
        IN  CASE r.k = "cidr" -> [k |-> "wild", c |-> r.c]
              [] r.k \in {"m4", "m6"} -> [r EXCEPT !.a = CNeg(@)]
              [] OTHER -> r
   ELSE CSub1(s)

(* resize: the mask a target denotes for family f; "misuse" for a mask of the *)
(* other family.                                                              *)
CTarget(s, f) ==
   LET r == CParseSubnet(s)
       w == IF f = 4 THEN V4Width ELSE V6Width
   IN  CASE r.k = "err" -> CErr
         [] r.k = "cidr" -> IF r.c > w THEN CErr ELSE [ok |-> TRUE, fam |-> f, m |-> PrefixMask(w, r.c)]
         [] r.k = "wild" -> IF r.c > w THEN CErr ELSE [ok |-> TRUE, fam |-> f, m |-> PrefixMask(w, w - r.c)]
         [] OTHER -> IF (r.k = "m4") = (f = 4)
                     THEN (IF "crash" \in DOMAIN r.a THEN CCrash ELSE [ok |-> TRUE, fam |-> f, m |-> r.a.a])
                     ELSE [ok |-> FALSE, misuse |-> TRUE]

(* impl Display for Ipv6Address *)
CRunEnd(gs, i) == LET nz == {j \in (i + 1)..Len(gs) : gs[j] # 0} IN IF nz = {} THEN Len(gs) + 1 ELSE MinOf(nz)
RECURSIVE CLongest(_, _, _, _)
CLongest(gs, i, idx, len) ==
   IF i > Len(gs) THEN [i |-> idx, n |-> len]
   ELSE IF gs[i] # 0 THEN CLongest(gs, i + 1, idx, len)
   ELSE LET j == CRunEnd(gs, i)
        IN  IF len < j - i THEN CLongest(gs, j, i, j - i) ELSE CLongest(gs, j, idx, len)
RECURSIVE CPieces(_, _, _, _)
CPieces(gs, z, i, out) ==
   IF i > Len(gs) THEN out
   ELSE IF z.i = i
   THEN LET o1 == IF i = 1 THEN Append(out, <<>>) ELSE out
            o2 == Append(o1, <<>>)
            o3 == IF i + z.n > Len(gs) THEN Append(o2, <<>>) ELSE o2
        IN  CPieces(gs, z, i + z.n, o3)
   ELSE CPieces(gs, z, i + 1, Append(out, HexText(gs[i])))
C6Show(gs) == IF \A i \in 1..Len(gs) : gs[i] = 0 THEN CC
              ELSE Join(CPieces(gs, CLongest(gs, 1, 0, 0), 1, <<>>), <<COLON>>)
GroupsIn(a) == TLCEval([k \in 1..Groups |-> 256 * Octet(a, 2 * k - 1) + Octet(a, 2 * k)])
C4Show(a) == Join([k \in 1..Octets |-> DecText(Octet(a, k))], <<DOT>>)
CShow(a) == IF Len(a) = V4Width THEN C4Show(a) ELSE C6Show(GroupsIn(a))
============================================================================
