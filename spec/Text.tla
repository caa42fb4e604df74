------------------------------- MODULE Text --------------------------------
(* Concrete syntax: text is a sequence of character codes. This module says  *)
(* which texts are addresses, networks, target masks and host counts, what   *)
(* they denote, and how addresses and networks are printed.                  *)
EXTENDS Net

(* ---- characters ---------------------------------------------------------- *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCode == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
                 31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c)]
Lit(s) == TLCEval([i \in 1..Len(s) |-> AsciiCode[SubSeq(s, i, i)]])

SP == 32  PLUS == 43  DASH == 45  DOT == 46  SLASH == 47  COLON == 58  ESC == 27

IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1

Has(s, c) == \E i \in 1..Len(s) : s[i] = c
Count(s, c) == Len(SelectSeq(s, LAMBDA x : x = c))
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, k) == SubSeq(s, k + 1, Len(s))

(* The pieces of s between the occurrences of c (one more than occurrences). *)
SplitAt(s, c) ==
   LET at == SelectSeq(TLCEval([i \in 1..Len(s) |-> i]), LAMBDA i : s[i] = c)
       lo(k) == IF k = 1 THEN 1 ELSE at[k-1] + 1
       hi(k) == IF k = Len(at) + 1 THEN Len(s) ELSE at[k] - 1
   IN  TLCEval([k \in 1..(Len(at) + 1) |-> SubSeq(s, lo(k), hi(k))])

(* The non-empty pieces between spaces.                                      *)
Words(s) == SelectSeq(SplitAt(s, SP), LAMBDA w : w # <<>>)

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, i) == IF i > Len(ss) THEN <<>>
                        ELSE (IF i = 1 THEN <<>> ELSE sep) \o ss[i] \o JoinFrom(ss, sep, i + 1)
Join(ss, sep) == TLCEval(JoinFrom(ss, sep, 1))

(* ---- numbers ------------------------------------------------------------- *)
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
(* Without leading zeros; <<>> stands for zero.                              *)
Significant(s) ==
   LET nz == {i \in 1..Len(s) : s[i] # 48} IN IF nz = {} THEN <<>> ELSE Drop(s, MinOf(nz) - 1)

(* Value of a digit string, or Big when it has more than 6 significant digits. *)
Big == 9999999
DecVal(s) ==
   LET t == Significant(s)
       RECURSIVE V(_, _)
       V(i, acc) == IF i > Len(t) THEN acc ELSE V(i + 1, 10 * acc + t[i] - 48)
   IN  IF Len(t) > 6 THEN Big ELSE V(1, 0)
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>

HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE HexText(n \div 16) \o <<HexDigit(n % 16)>>

(* Comparison of digit strings of any length.                                *)
DecLe(s, t) ==
   LET a == Significant(s)  b == Significant(t)
   IN  \/ Len(a) < Len(b)
       \/ Len(a) = Len(b) /\ (a = b \/ LET d == MinOf({i \in 1..Len(a) : a[i] # b[i]}) IN a[d] < b[d])

(* 2^h for h = 0..128 as digit strings, by repeated doubling.                *)
DoubleDec(s) ==
   LET n == Len(s)
       d(i) == s[i] - 48
       carry(i) == IF i < n /\ d(i+1) >= 5 THEN 1 ELSE 0
       body == TLCEval([i \in 1..n |-> 48 + ((2 * d(i)) % 10) + carry(i)])
   IN  IF d(1) >= 5 THEN <<49>> \o body ELSE body
Pow2 == FoldLeft(LAMBDA acc, i : TLCEval(Append(acc, DoubleDec(acc[Len(acc)]))), <<Lit("1")>>, [i \in 1..128 |-> i])

(* Host addresses of a network with h host bits: 2^h - 2, none for h < 2.    *)
(* A power of two from 4 on ends in 2, 4, 6 or 8: no borrow.                 *)
HostCountText(h) ==
   IF h < 2 THEN Lit("0")
   ELSE LET p == Pow2[h + 1] IN Significant([p EXCEPT ![Len(p)] = p[Len(p)] - 2])
(* The least number of host bits, up to w, with at least the given number of *)
(* host addresses; -1 when there is none.                                    *)
NeededHostBits(count, w) ==
   IF Significant(count) = <<>> THEN 1      \* 2^1 - 2 = 0, while 2^0 - 2 < 0
   ELSE LET ok == {h \in 2..w : DecLe(count, HostCountText(h))} IN IF ok = {} THEN -1 ELSE MinOf(ok)

(* ---- reading addresses ---------------------------------------------------- *)
Octets == 4          \* of an IPv4 address     (the models of the parsers in
Groups == 8          \* of an IPv6 address      MC_Text make them smaller)
V4Width == 8 * Octets
V6Width == 16 * Groups
Bad == [ok |-> FALSE]

OctetBits(v) == FromVal(v, 8)
ReadV4(s) ==
   LET ch == SplitAt(s, DOT)
   IN  IF Len(ch) # Octets \/ \E k \in 1..Len(ch) : ~AllDigits(ch[k]) \/ DecVal(ch[k]) > 255
       THEN Bad
       ELSE [ok |-> TRUE, fam |-> 4,
             a |-> FoldLeft(LAMBDA acc, c : TLCEval(acc \o OctetBits(DecVal(c))), <<>>, ch)]

(* Hexadecimal groups: g groups make an address.                             *)
IsHexGroup(s) == s # <<>> /\ (\A i \in 1..Len(s) : HexVal(s[i]) >= 0) /\ Len(Significant(s)) <= 4
RECURSIVE HexValue(_, _, _)
HexValue(s, i, acc) == IF i > Len(s) THEN acc ELSE HexValue(s, i + 1, 16 * acc + HexVal(s[i]))

(* The groups a text of hexadecimal groups stands for, or <<>> if malformed: *)
(* all g groups, or fewer with exactly one "::" in place of the missing.     *)
GroupsOf(s, g) ==
   LET dc == {i \in 1..(Len(s) - 1) : s[i] = COLON /\ s[i+1] = COLON}
       vals(t) == IF t = <<>> THEN <<>>
                  ELSE LET ch == SplitAt(t, COLON)
                       IN  IF \A k \in 1..Len(ch) : IsHexGroup(ch[k])
                           THEN TLCEval([k \in 1..Len(ch) |-> HexValue(ch[k], 1, 0)])
                           ELSE <<-1>>
       bad(v) == v = <<-1>>
   IN  IF dc = {}
       THEN LET v == vals(s) IN IF s = <<>> \/ bad(v) \/ Len(v) # g THEN <<>> ELSE v
       ELSE IF Cardinality(dc) > 1 THEN <<>>
       ELSE LET d == MinOf(dc)
                l == vals(SubSeq(s, 1, d - 1))
                r == vals(Drop(s, d + 1))
            IN  IF bad(l) \/ bad(r) \/ Len(l) + Len(r) >= g THEN <<>>
                ELSE l \o [k \in 1..(g - Len(l) - Len(r)) |-> 0] \o r

RECURSIVE GroupBits(_, _)
GroupBits(gs, k) == IF k > Len(gs) THEN <<>> ELSE FromVal(gs[k], 16) \o GroupBits(gs, k + 1)
ReadV6(s) ==
   LET gs == GroupsOf(s, Groups)
   IN  IF gs = <<>> THEN Bad ELSE [ok |-> TRUE, fam |-> 6, a |-> TLCEval(GroupBits(gs, 1))]

ReadAddr(s) == IF Has(s, COLON) THEN ReadV6(s) ELSE ReadV4(s)

(* A host count: digits, among them underscores; a plus sign changes nothing   *)
(* and a minus sign is all right before zero.                                *)
HostCountBody(s) == IF s # <<>> /\ s[1] \in {PLUS, DASH} THEN Tail(s) ELSE s
HostCountDigits(s) == SelectSeq(HostCountBody(s), LAMBDA c : c # 95)
IsHostCount(s) == LET t == HostCountBody(s)
                  IN  /\ t # <<>> /\ t[1] # 95
                      /\ AllDigits(HostCountDigits(s))
                      /\ (s[1] = DASH => Significant(HostCountDigits(s)) = <<>>)

(* A mask for family f and width w: a prefix length, a mask, or either as a  *)
(* wildcard (number of host bits, complement of the mask) behind a dash.     *)
ReadMask(s, f) ==
   LET w == IF f = 4 THEN V4Width ELSE V6Width
       neg == s # <<>> /\ s[1] = DASH
       t == IF neg THEN Drop(s, 1) ELSE s
   IN  IF AllDigits(t)
       THEN IF DecVal(t) > w THEN Bad
            ELSE [ok |-> TRUE, fam |-> f, m |-> PrefixMask(w, IF neg THEN w - DecVal(t) ELSE DecVal(t))]
       ELSE LET r == ReadAddr(t)
            IN  IF ~r.ok \/ (Has(t, COLON) # (f = 6)) THEN Bad
                ELSE [ok |-> TRUE, fam |-> f, m |-> IF neg THEN Not(r.a) ELSE r.a]

(* ADDRESS/MASK *)
ReadNet(s) ==
   LET ch == SplitAt(s, SLASH)
   IN  IF Len(ch) # 2 THEN Bad
       ELSE LET r == ReadAddr(ch[1])
            IN  IF ~r.ok THEN Bad
                ELSE LET k == ReadMask(ch[2], r.fam)
                     IN  IF ~k.ok THEN Bad
                         ELSE [ok |-> TRUE, fam |-> r.fam, a |-> r.a, n |-> MkNet(r.a, k.m)]

(* A target mask is read alone; its family shows unless it is a number.      *)
MaskFamily(s) == IF Has(s, COLON) THEN 6 ELSE IF Has(s, DOT) THEN 4 ELSE 0

(* ---- printing ------------------------------------------------------------- *)
V4Text(a) == Join([k \in 1..Octets |-> DecText(Octet(a, k))], <<DOT>>)

(* Groups as text, with the longest (leftmost) run of zero groups as "::".   *)
GroupsText(gs) ==
   LET n == Len(gs)
       Z == {i \in 1..n : gs[i] = 0}
       run(i) == MaxOf({k \in 0..(n - i + 1) : \A j \in i..(i + k - 1) : j \in Z})
       longest == MaxOf({run(i) : i \in Z})
       first == MinOf({i \in Z : run(i) = longest})
       txt(lo, hi) == Join([k \in 1..(hi - lo + 1) |-> HexText(gs[lo + k - 1])], <<COLON>>)
   IN  IF Z = {} THEN txt(1, n)
       ELSE txt(1, first - 1) \o <<COLON, COLON>> \o txt(first + longest, n)
V6Text(a) == TLCEval(GroupsText(TLCEval([k \in 1..Groups |-> 256 * Octet(a, 2 * k - 1) + Octet(a, 2 * k)])))

AddrText(a) == IF Len(a) = V4Width THEN V4Text(a) ELSE V6Text(a)
NetText(n) == AddrText(n.b) \o <<SLASH>> \o (IF IsCidr(n) THEN DecText(NetBits(n)) ELSE AddrText(n.m))

(* All bits, separated by octet (IPv4, dots) or by 16 (IPv6, colons).        *)
BinText(a) ==
   LET g == IF Len(a) = 32 THEN 9 ELSE 17
       sep == IF Len(a) = 32 THEN DOT ELSE COLON
   IN  TLCEval([p \in 1..(Len(a) + (Len(a) \div (g - 1)) - 1) |->
                  IF p % g = 0 THEN sep ELSE 48 + a[p - (p \div g)]])
(* Which bit is at position p of the binary text (0: a separator).           *)
BinBitAt(a, p) == LET g == IF Len(a) = 32 THEN 9 ELSE 17 IN IF p % g = 0 THEN 0 ELSE p - (p \div g)

PadTo(s, w) == IF Len(s) >= w THEN s ELSE s \o [i \in 1..(w - Len(s)) |-> SP]
============================================================================
