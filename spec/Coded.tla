------------------------------- MODULE Coded -------------------------------
(* The helpers of src/net.rs, src/bit_manip.rs, src/cidr.rs and src/addr.rs,  *)
(* transcribed as they are written there, over vectors of any width. The     *)
(* MC_* modules check that they compute what Net, Derange, ... define.       *)
EXTENDS Net

None == <<-1>>                                  \* Option::None

Cidr(a, p) == MkNet(a, PrefixMask(Len(a), p))   \* IpNetwork::new_with_prefix

(* bit_manip.rs *)
Unravel(a, m) ==
   IF IsPrefixMask(m) THEN a
   ELSE FoldLeft(LAMBDA acc, i : IF m[i] = 1 THEN Append(acc, a[i]) ELSE acc, <<>>, [i \in 1..Len(a) |-> i]) \o
        FoldLeft(LAMBDA acc, i : IF m[i] = 0 THEN Append(acc, a[i]) ELSE acc, <<>>, [i \in 1..Len(a) |-> i])
Weave(a, m) ==
   IF IsPrefixMask(m) THEN a
   ELSE LET k == CountOnes(m)
            st == FoldLeft(LAMBDA s, i :
                     IF m[i] = 1 THEN [s EXCEPT !.out = Append(@, a[s.net]), !.net = @ + 1]
                     ELSE [s EXCEPT !.out = Append(@, a[s.host]), !.host = @ + 1],
                     [out |-> <<>>, net |-> 1, host |-> k + 1], [i \in 1..Len(a) |-> i])
        IN  st.out

(* addr.rs: checked addition and subtraction, on numbers.                     *)
Add(a, b) == LET s == Val(a) + Val(b) IN IF s >= 2 ^ Len(a) THEN None ELSE FromVal(s, Len(a))
AddOne(a) == Add(a, FromVal(1, Len(a)))
SubOne(a) == IF Val(a) = 0 THEN None ELSE FromVal(Val(a) - 1, Len(a))

(* Ipv6Address::add_internal: two halves with a carry.                        *)
AddHalves(at, ab, bt, bb, h) ==
   LET bot == (ab + bb) % (2 ^ h)                       \* wrapping_add
       carry == bot < ab \/ bot < bb
       top == at + bt
   IN  IF top >= 2 ^ h THEN -1                          \* checked_add
       ELSE IF carry THEN (IF top + 1 >= 2 ^ h THEN -1 ELSE (top + 1) * 2 ^ h + bot)
       ELSE top * 2 ^ h + bot

(* net.rs *)
HostMask(n) == Not(PrefixMask(Width(n), Width(n) - HostBits(n)))   \* host_count_address
CFirstHost(n) ==
   IF HostBits(n) < 2 THEN None
   ELSE LET x == AddOne(Unravel(n.b, n.m)) IN IF x = None THEN None ELSE Weave(x, n.m)
CBcast(n) ==
   IF HostBits(n) < 1 THEN None
   ELSE LET x == Add(Unravel(n.b, n.m), HostMask(n)) IN IF x = None THEN None ELSE Weave(x, n.m)
CLastHost(n) ==
   IF HostBits(n) < 2 THEN None
   ELSE LET x == Add(Unravel(n.b, n.m), HostMask(n))
            y == IF x = None THEN None ELSE SubOne(x)
        IN  IF y = None THEN None ELSE Weave(y, n.m)
CNextBase(n) ==
   LET x == Add(Unravel(n.b, n.m), HostMask(n))
       y == IF x = None THEN None ELSE AddOne(x)
   IN  IF y = None THEN None ELSE Weave(y, n.m)
CLast(n) == IF CBcast(n) = None THEN n.b ELSE CBcast(n)
CSuperset(n, k) == And(k.b, n.m) = n.b /\ And(k.m, n.m) = n.m

(* cidr.rs, with bytes of y bits: prefix_from_subnet_mask_bytes (-1: None)    *)
(* and subnet_mask_bytes_from_prefix.                                         *)
BytePrefix(b) == IF IsPrefixMask(b) THEN CountOnes(b) ELSE 9          \* the table
Bytes(a, y) == [k \in 1..(Len(a) \div y) |-> SubSeq(a, ((k - 1) * y) + 1, k * y)]
CPrefixOf(m, y) ==
   LET r == FoldLeft(LAMBDA s, b :
               IF s.none THEN s
               ELSE LET n == BytePrefix(b)
                    IN  CASE n = 9 -> [s EXCEPT !.none = TRUE]
                          [] n = y -> IF s.over THEN [s EXCEPT !.none = TRUE] ELSE [s EXCEPT !.cidr = @ + y]
                          [] n = 0 -> [s EXCEPT !.over = TRUE]
                          [] OTHER -> IF s.over THEN [s EXCEPT !.none = TRUE]
                                      ELSE [s EXCEPT !.cidr = @ + n, !.over = TRUE],
               [none |-> FALSE, over |-> FALSE, cidr |-> 0], Bytes(m, y))
   IN  IF r.none THEN -1 ELSE r.cidr
RECURSIVE CMaskBytes(_, _, _, _)
CMaskBytes(out, p, w, y) ==
   IF Len(out) >= w THEN out
   ELSE IF p = 0 THEN CMaskBytes(out \o Zeros(y), 0, w, y)
   ELSE IF p >= y THEN CMaskBytes(out \o Ones(y), p - y, w, y)
   ELSE CMaskBytes(out \o PrefixMask(y, p), 0, w, y)
============================================================================
