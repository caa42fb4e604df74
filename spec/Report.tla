------------------------------ MODULE Report -------------------------------
(* What a report says about a network (facts), how each fact is laid out as  *)
(* one line, and how the bits are coloured.                                  *)
EXTENDS Text

(* ---- facts ---------------------------------------------------------------- *)
HasHosts(n) == HostBits(n) >= 2
HasBcast(n) == HostBits(n) >= 1

(* Number of leading bits that define the class of an address, 1 to 4.       *)
ClassBits(b) == IF b[1] = 0 THEN 1 ELSE IF b[2] = 0 THEN 2 ELSE IF b[3] = 0 THEN 3 ELSE 4
ClassName(b) == IF b[1] = 0 THEN "Class A" ELSE IF b[2] = 0 THEN "Class B"
                ELSE IF b[3] = 0 THEN "Class C"
                ELSE IF b[4] = 0 THEN "Class D (multicast)" ELSE "Class E (reserved)"
(* All class-defining bits are network bits: the network lies in its class.  *)
Classful(n) == Width(n) # 128 /\ \A i \in 1..ClassBits(n.b) : n.m[i] = 1

(* ---- lines ---------------------------------------------------------------- *)
LabelWidth == 11
ValueWidth(w) == IF w = 32 THEN 21 ELSE 46

LitNetmask == Lit("Netmask:")  LitWildcard == Lit("Wildcard:")  LitAddress == Lit("Address:")
LitArrow == Lit("=>")  LitNetwork == Lit("Network:")  LitHostMin == Lit("HostMin:")
LitHostMax == Lit("HostMax:")  LitBroadcast == Lit("Broadcast:")  LitHosts == Lit("Hosts/Net:")
LitNoHosts == Lit("no hosts")  LitNoBcast == Lit("no broadcast")  LitNoCount == Lit("no hosts/net")
LitEq == Lit("=")  LitClass == Lit("Class")
ClassText == [c \in {"Class A", "Class B", "Class C", "Class D (multicast)", "Class E (reserved)"} |-> Lit(c)]

(* An address line: label, value, bits. hd: the value's words.               *)
AddrLine(kind, label, val, a) ==
   [kind |-> kind, label |-> label, val |-> val, addr |-> a, bin |-> BinText(a), tail |-> <<>>,
    text |-> PadTo(label, LabelWidth) \o PadTo(val, ValueWidth(Len(a))) \o BinText(a)]
PlainLine(kind, label) ==
   [kind |-> kind, label |-> label, val |-> <<>>, addr |-> <<>>, bin |-> <<>>, tail |-> <<>>, text |-> label]

AddressLine(a)   == AddrLine("Address", LitAddress, AddrText(a), a)
NetmaskLine(n)   == AddrLine("Netmask", LitNetmask,
                       AddrText(n.m) \o (IF IsCidr(n) THEN Lit(" = ") \o DecText(NetBits(n)) ELSE <<>>), n.m)
WildcardLine(n)  == AddrLine("Wildcard", LitWildcard, AddrText(Wild(n)), Wild(n))
NetworkLine(n)   == AddrLine("Network", LitNetwork,
                       AddrText(n.b) \o (IF IsCidr(n) THEN <<SLASH>> \o DecText(NetBits(n)) ELSE <<>>), n.b)
HostMinLine(n)   == AddrLine("HostMin", LitHostMin, AddrText(HostMin(n)), HostMin(n))
HostMaxLine(n)   == AddrLine("HostMax", LitHostMax, AddrText(HostMax(n)), HostMax(n))
BroadcastLine(n) == AddrLine("Broadcast", LitBroadcast, AddrText(Bcast(n)), Bcast(n))
HostsLine(n) ==
   LET val == HostCountText(HostBits(n))
       tail == IF Classful(n) THEN ClassText[ClassName(n.b)] ELSE <<>>
   IN  [kind |-> "Hosts", label |-> LitHosts, val |-> val, addr |-> <<>>, bin |-> <<>>, tail |-> tail,
        text |-> PadTo(LitHosts, LabelWidth) \o PadTo(val, ValueWidth(Width(n))) \o tail]

(* The block from the Network line on: number of lines, and the k-th line.   *)
BlockLen(n) == IF HasHosts(n) THEN 5 ELSE 4
BlockLine(n, k) ==
   IF k = 1 THEN NetworkLine(n)
   ELSE IF HasHosts(n)
   THEN CASE k = 2 -> HostMinLine(n) [] k = 3 -> HostMaxLine(n)
          [] k = 4 -> BroadcastLine(n) [] k = 5 -> HostsLine(n)
   ELSE CASE k = 2 -> PlainLine("NoHosts", LitNoHosts)
          [] k = 3 -> (IF HasBcast(n) THEN BroadcastLine(n) ELSE PlainLine("NoBcast", LitNoBcast))
          [] k = 4 -> PlainLine("NoCount", LitNoCount)

(* The full report on address a in network n.                                *)
ReportLen(n) == 4 + BlockLen(n)
ReportLine(n, a, k) ==
   CASE k = 1 -> AddressLine(a)
     [] k = 2 -> NetmaskLine(n)
     [] k = 3 -> WildcardLine(n)
     [] k = 4 -> PlainLine("Arrow", LitArrow)
     [] k > 4 -> BlockLine(n, k - 4)

(* ---- comparing an observed line with the specified one --------------------- *)
(* The words from the first "Class" on.                                      *)
ClassWords(ws) == LET at == {i \in 1..Len(ws) : ws[i] = LitClass}
                  IN  IF at = {} THEN <<>> ELSE Drop(ws, MinOf(at) - 1)
(* Which aspects of line obs differ from the specified line e:               *)
(*   label  a different line altogether      value  the value is wrong       *)
(*   form   the value is right but not written as specified                  *)
(*   bits   the binary column                class  the named class          *)
(*   space  only the spacing                                                 *)
LineDiff(e, obs) ==
   IF obs = e.text THEN {}
   ELSE LET ws == Words(obs)
            lw == Words(e.label)
            cw == ClassWords(ws)
            nocls == SubSeq(ws, 1, Len(ws) - Len(cw))
            same == Len(ws) >= Len(lw) /\ SubSeq(ws, 1, Len(lw)) = lw
            rest == Drop(nocls, Len(lw))
            hasbin == e.bin # <<>>
            ov == IF hasbin /\ rest # <<>> /\ (rest[Len(rest)] = e.bin \/ Len(rest) > Len(Words(e.val)))
                  THEN SubSeq(rest, 1, Len(rest) - 1) ELSE rest
            ob == IF hasbin /\ Len(ov) < Len(rest) THEN rest[Len(rest)] ELSE <<>>
            ev == Words(e.val)
            denotes == /\ ov # <<>> /\ ev # <<>> /\ Len(ov) = Len(ev) /\ e.addr # <<>>
                       /\ Drop(ov, 1) = Drop(ev, 1)
                       /\ LET op == SplitAt(ov[1], SLASH)  ep == SplitAt(ev[1], SLASH)
                              r == ReadAddr(op[1])
                          IN  r.ok /\ r.a = e.addr /\ Drop(op, 1) = Drop(ep, 1)
            cls == IF cw # Words(e.tail) THEN {"class"} ELSE {}
        IN  IF ~same THEN {"label"} \cup cls
            ELSE LET d == cls \cup
                          (IF ov = ev THEN {} ELSE IF denotes THEN {"form"} ELSE {"value"}) \cup
                          (IF hasbin /\ ob # e.bin THEN {"bits"} ELSE {})
                 IN  IF d = {} THEN {"space"} ELSE d

(* ---- colours --------------------------------------------------------------- *)
(* Coloured text is a sequence of (character, colour), colour 0 meaning none. *)
(* An escape ESC [ parameters m sets the colour to the last parameter; 0 or   *)
(* nothing resets it.                                                         *)
ColNet == 10  ColHost == 11  ColClass == 13  ColMask == 9

(* Splits raw text into plain characters and their colours; ok is false when  *)
(* an escape is malformed or a colour stays on at the end.                    *)
Uncolour(s) ==
   LET step(acc, c) ==
         CASE acc.esc = 0 /\ c = ESC -> [acc EXCEPT !.esc = 1]
           [] acc.esc = 0 /\ c # ESC -> [acc EXCEPT !.txt = Append(@, c), !.col = Append(@, acc.cur)]
           [] acc.esc = 1 -> IF c = 91 THEN [acc EXCEPT !.esc = 2, !.num = 0] ELSE [acc EXCEPT !.ok = FALSE, !.esc = 0]
           [] acc.esc = 2 -> IF IsDigit(c) THEN [acc EXCEPT !.num = (10 * @ + (c - 48)) % 1000]
                             ELSE IF c = 59 THEN [acc EXCEPT !.num = 0]
                             ELSE IF c = 109 THEN [acc EXCEPT !.cur = acc.num, !.esc = 0]
                             ELSE [acc EXCEPT !.ok = FALSE, !.esc = 0]
       r == FoldLeft(LAMBDA acc, c : TLCEval(step(acc, c)),
                     [txt |-> <<>>, col |-> <<>>, cur |-> 0, esc |-> 0, num |-> 0, ok |-> TRUE], s)
   IN  [txt |-> r.txt, col |-> r.col, ok |-> r.ok /\ r.cur = 0 /\ r.esc = 0]

(* The colour of bit i of the Address or Network line of n, and of the mask.  *)
BitColour(kind, n, i) ==
   CASE kind = "Network" /\ Classful(n) /\ i <= ClassBits(n.b) -> ColClass
     [] kind = "Netmask" -> ColMask
     [] OTHER -> IF n.m[i] = 1 THEN ColNet ELSE ColHost
(* The line's binary column ends the line: check its colours. The class bits  *)
(* of a network without hosts are coloured, too ("could name that class").    *)
ColoursOK(kind, n, plain, cols) ==
   LET w == Width(n)
       binlen == Len(BinText(n.b))
       off == Len(plain) - binlen
   IN  off >= 0 /\ \A p \in 1..binlen :
          LET i == BinBitAt(n.b, p) IN i = 0 \/ cols[off + p] = BitColour(kind, n, i)
============================================================================
