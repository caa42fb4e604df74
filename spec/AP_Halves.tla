----------------------------- MODULE AP_Halves -----------------------------
(* Checked addition and subtraction of src/addr.rs at their full width, for   *)
(* all values, with Apalache: an IPv6 address is two halves of 64 bits, with  *)
(* a carry between them; an IPv4 address is computed in 64 bits.             *)
EXTENDS Integers

\* @type: Int;
H == 18446744073709551616                      \* 2^64
\* @type: Int;
V == 4294967296                                \* 2^32

VARIABLES
  \* @type: Int;
  at,
  \* @type: Int;
  ab,
  \* @type: Int;
  bt,
  \* @type: Int;
  bb,
  \* @type: Int;
  x,
  \* @type: Int;
  y

Init == /\ at \in Int /\ ab \in Int /\ bt \in Int /\ bb \in Int /\ x \in Int /\ y \in Int
        /\ 0 <= at /\ at < H /\ 0 <= ab /\ ab < H /\ 0 <= bt /\ bt < H /\ 0 <= bb /\ bb < H
        /\ 0 <= x /\ x < V /\ 0 <= y /\ y < V
Next == UNCHANGED <<at, ab, bt, bb, x, y>>

Wrap(n) == IF n >= H THEN n - H ELSE IF n < 0 THEN n + H ELSE n

(* add_internal; -1 stands for None                                           *)
\* @type: (Int, Int, Int, Int) => Int;
CodedAdd(p, q, r, s) ==
   LET bot == Wrap(q + s)
       carry == bot < q \/ bot < s
       top == p + r
   IN  IF top >= H THEN -1
       ELSE IF carry THEN (IF top + 1 >= H THEN -1 ELSE (top + 1) * H + bot)
       ELSE top * H + bot
(* sub_internal with the operands that the modes give it: the right one is 1. *)
\* @type: (Int, Int, Int, Int) => Int;
CodedSub(p, q, r, s) ==
   LET bot == Wrap(q - s)
       borrow == p < r \/ (p = r /\ q < s)
       top == p - r
   IN  IF top < 0 THEN -1
       ELSE IF borrow THEN (IF top - 1 < 0 THEN -1 ELSE (top - 1) * H + bot)
       ELSE top * H + bot

Sum == (at * H + ab) + (bt * H + bb)
AddRight == CodedAdd(at, ab, bt, bb) = (IF Sum >= H * H THEN -1 ELSE Sum)
(* add_offset(1), add_offset(-1) on IPv4: i64 arithmetic, then a range check.  *)
Add4(p, q) == IF p + q < 0 \/ p + q >= V THEN -1 ELSE p + q
Add4Right == /\ Add4(x, y) = (IF x + y >= V THEN -1 ELSE x + y)
             /\ Add4(x, -y) = (IF x < y THEN -1 ELSE x - y)
             /\ x + y < 9223372036854775808
(* Adding back what was subtracted, for differences the modes take.           *)
Diff == (at * H + ab) - (bt * H + bb)
SubRight == CodedSub(at, ab, bt, bb) = (IF Diff < 0 THEN -1 ELSE Diff)
SubOneRight == LET n == at * H + ab IN
   (bt = 0 /\ bb = 1 /\ (at = 0 \/ ab >= 1)) => CodedSub(at, ab, bt, bb) = (IF n < 1 THEN -1 ELSE n - 1)

Right == AddRight /\ Add4Right /\ SubOneRight
============================================================================
