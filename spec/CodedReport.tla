---------------------------- MODULE CodedReport ----------------------------
(* src/cmds/show_net.rs and src/console.rs as coded: what names the class,   *)
(* what colours the bits, what pads the columns, and the escapes written     *)
(* around each piece of text.                                                *)
EXTENDS Report

(* output_ipv4_class: the name, or "" when nothing is written                *)
Prefixed(bits, p) == StartsWith(bits, p)                 \* starts_with on the binary text
CClass(top, mtop) ==
   IF Prefixed(top, <<0>>) /\ Prefixed(mtop, <<1>>) THEN "Class A"
   ELSE IF Prefixed(top, <<1, 0>>) /\ Prefixed(mtop, <<1, 1>>) THEN "Class B"
   ELSE IF Prefixed(top, <<1, 1, 0>>) /\ Prefixed(mtop, <<1, 1, 1>>) THEN "Class C"
   ELSE IF Prefixed(mtop, <<1, 1, 1, 1>>)
   THEN IF Prefixed(top, <<1, 1, 1, 0>>) THEN "Class D (multicast)"
        ELSE IF Prefixed(top, <<1, 1, 1, 1>>) THEN "Class E (reserved)" ELSE ""
   ELSE ""

(* output_binary_ipv4_address: whether the first byte shows class bits        *)
CClassColoured(bits, mask, wanted) ==
   /\ wanted
   /\ mask[1] # 0
   /\ ~(bits[1] = 1 /\ mask[2] = 0)
   /\ ~(Prefixed(bits, <<1, 1>>) /\ mask[3] = 0)
   /\ ~(Prefixed(bits, <<1, 1, 1>>) /\ mask[4] = 0)
CBitColour(bits, mask, classed, bit) ==
   IF classed /\ \/ bit = 1
                 \/ bit = 2 /\ bits[1] = 1
                 \/ bit = 3 /\ Prefixed(bits, <<1, 1>>)
                 \/ bit = 4 /\ Prefixed(bits, <<1, 1, 1>>)
   THEN ColClass
   ELSE IF mask[bit] = 1 THEN ColNet ELSE ColHost

(* write_in_color: padding (at the end), the colour, the text, the reset      *)
RECURSIVE CSpaces(_, _)
CSpaces(s, delta) == IF delta = 0 THEN s ELSE CSpaces(Append(s, SP), delta - 1)
CPad(s, to) == IF to > 0 /\ to > Len(s) THEN CSpaces(s, to - Len(s)) ELSE s
ColLabel == 15  ColValue == 12  ColSep == 15
(* style(..).bright().green(): ESC [38;5;10m ... ESC [0m                      *)
CWrite(s, col) == <<ESC, 91>> \o Lit("38;5;") \o DecText(col) \o Lit("m") \o s \o <<ESC, 91>> \o Lit("0m")

(* A piece for every bit, a separator between the bytes (v4), or after every  *)
(* second one (v6); y bits a byte. how: "bits" (by mask), "mask", "plain".    *)
CBinary(f, a, m, how, wanted, y) ==
   LET bytes == Len(a) \div y
       byte(v, i) == SubSeq(v, (i - 1) * y + 1, i * y)
       chars(v) == [k \in 1..Len(v) |-> 48 + v[k]]
       classed == f = 4 /\ CClassColoured(byte(a, 1), byte(m, 1), wanted)
       one(i) == IF how = "mask" THEN CWrite(chars(byte(a, i)), ColMask)
                 ELSE IF how = "plain" THEN CWrite(chars(byte(a, i)), ColHost)
                 ELSE FoldLeft(LAMBDA acc, k : acc \o CWrite(<<48 + byte(a, i)[k]>>,
                                  CBitColour(byte(a, i), byte(m, i), classed /\ i = 1, k)), <<>>, [k \in 1..y |-> k])
       sep(i) == IF i = bytes THEN <<>>
                 ELSE IF f = 4 THEN CWrite(<<DOT>>, ColSep)
                 ELSE IF i % 2 = 0 THEN CWrite(<<COLON>>, ColSep) ELSE <<>>
   IN  FoldLeft(LAMBDA acc, i : TLCEval(acc \o one(i) \o sep(i)), <<>>, [i \in 1..bytes |-> i])
CLineText(f, label, val, binary, to) ==
   CWrite(CPad(label, 11), ColLabel) \o CWrite(CPad(val, to), ColValue) \o binary
============================================================================
