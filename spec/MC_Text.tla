------------------------------ MODULE MC_Text ------------------------------
(* A text typed character by character, over a small alphabet, read as coded  *)
(* and as defined. Addresses have K octets or G groups.                       *)
EXTENDS CodedText, Json
CONSTANTS ALPHABET, N, K, G, KIND, EMIT

SmallOctets == K             \* replaces Octets and Groups
SmallGroups == G

VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E i \in 1..Len(ALPHABET) : s' = Append(s, AsciiCode[SubSeq(ALPHABET, i, i)])
Spec == Init /\ [][Next]_s

Coded  == IF KIND = "net" THEN CParseNet(s) ELSE CParseAddr(s)
Meant  == IF KIND = "net" THEN ReadNet(s) ELSE ReadAddr(s)

(* What is accepted and what it denotes.                                      *)
Agree == KIND # "mask" => Coded = Meant
AgreeMask == KIND = "mask" => \A f \in {4, 6} :
   LET c == CTarget(s, f)  d == ReadMask(s, f)
   IN  /\ c.ok = d.ok
       /\ c.ok => c = d
       \* a mask of the other family is told apart from something malformed
       /\ ~c.ok => (("misuse" \in DOMAIN c) <=> (MaskFamily(s) = 10 - f /\ ReadMask(s, 10 - f).ok))
(* Printed as defined, and what is printed reads as the same; printing a      *)
(* reading of it changes nothing.                                             *)
RoundTrip == (KIND = "addr" /\ Coded.ok) =>
   LET t == CShow(Coded.a)
   IN  /\ t = AddrText(Coded.a)
       /\ CParseAddr(t) = Coded
(* No text for an address is shorter than the printed one; only when the      *)
(* first of several equally long runs of zeros begins the address, leaving    *)
(* out a later one saves a colon more.                                        *)
Shortest == (KIND = "addr" /\ Coded.ok /\ Has(s, COLON)) =>
   LET t == AddrText(Coded.a) IN Len(t) <= Len(s) + (IF StartsWith(t, CC) /\ ~EndsWith(t, CC) THEN 1 ELSE 0)
RoundTripNet == (KIND = "net" /\ Coded.ok) =>
   LET t == NetText(Coded.n)
       r == CParseNet(t)
   IN  r.ok /\ r.fam = Coded.fam /\ r.n = Coded.n /\ r.a = Coded.n.b
(* The wildcard notation is the complement.                                   *)
Wildcard == (KIND = "mask" /\ s # <<>> /\ s[1] # DASH) => \A f \in {4, 6} :
   LET c == CTarget(s, f)  d == CTarget(<<DASH>> \o s, f)
   IN  /\ c.ok = d.ok
       /\ c.ok => IF AllDigits(s) THEN CountOnes(c.m) + CountOnes(d.m) = Len(c.m) /\ IsPrefixMask(c.m) /\ IsPrefixMask(d.m)
                  ELSE d.m = Not(c.m)
Emit == EMIT => PrintT("BEH " \o ToJson([s |-> s, ok |-> IF KIND = "mask" THEN CTarget(s, 4).ok \/ CTarget(s, 6).ok ELSE Coded.ok]))
=============================================================================
