------------------------------- MODULE Bits -------------------------------
(* Bit vectors of any width, most significant bit first: sequences of 0/1.   *)
(* Width 32 is an IPv4 address, 128 an IPv6 address; the model-checking      *)
(* configurations use widths 2..6, the trace validation the real widths.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Zeros(n) == TLCEval([i \in 1..n |-> 0])
Ones(n)  == TLCEval([i \in 1..n |-> 1])

Not(a)    == TLCEval([i \in 1..Len(a) |-> 1 - a[i]])
And(a, b) == TLCEval([i \in 1..Len(a) |-> IF a[i] = 1 THEN b[i] ELSE 0])
Or(a, b)  == TLCEval([i \in 1..Len(a) |-> IF a[i] = 1 THEN 1 ELSE b[i]])
Xor(a, b) == TLCEval([i \in 1..Len(a) |-> IF a[i] = b[i] THEN 0 ELSE 1])

CountOnes(a) == Len(SelectSeq(a, LAMBDA x : x = 1))

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Numeric order of two vectors of the same width.                           *)
Lt(a, b) == a # b /\ LET d == MinOf({i \in 1..Len(a) : a[i] # b[i]}) IN a[d] < b[d]
Le(a, b) == a = b \/ Lt(a, b)
LoOf(a, b) == IF Le(a, b) THEN a ELSE b
HiOf(a, b) == IF Le(a, b) THEN b ELSE a

AllOnes(a)  == \A i \in 1..Len(a) : a[i] = 1
AllZeros(a) == \A i \in 1..Len(a) : a[i] = 0

(* Successor and predecessor; callers check AllOnes / AllZeros before.       *)
Inc(a) == LET z == MaxOf({i \in 1..Len(a) : a[i] = 0})
          IN  TLCEval([i \in 1..Len(a) |-> IF i < z THEN a[i] ELSE IF i = z THEN 1 ELSE 0])
Dec(a) == LET z == MaxOf({i \in 1..Len(a) : a[i] = 1})
          IN  TLCEval([i \in 1..Len(a) |-> IF i < z THEN a[i] ELSE IF i = z THEN 0 ELSE 1])

(* a + k for a natural number k: the vector v, and what of it does not fit.   *)
Plus(a, k) == FoldRight(LAMBDA x, acc : TLCEval([v |-> <<(x + acc.c) % 2>> \o acc.v, c |-> (x + acc.c) \div 2]),
                        a, [v |-> <<>>, c |-> k])

(* The mask with p leading ones.                                             *)
PrefixMask(w, p) == TLCEval([i \in 1..w |-> IF i <= p THEN 1 ELSE 0])
IsPrefixMask(m)  == \A i \in 1..(Len(m) - 1) : m[i] = 1 \/ m[i + 1] = 0

(* Positions of the ones of m, ascending.                                    *)
OnesAt(m) == SelectSeq(TLCEval([i \in 1..Len(m) |-> i]), LAMBDA i : m[i] = 1)

(* The bits of a at the positions idx, in that order.                        *)
Pick(a, idx) == TLCEval([k \in 1..Len(idx) |-> a[idx[k]]])

(* Numeric value of a short vector (at most 30 bits).                        *)
RECURSIVE ValFrom(_, _, _)
ValFrom(a, i, acc) == IF i > Len(a) THEN acc ELSE ValFrom(a, i + 1, 2 * acc + a[i])
Val(a) == ValFrom(a, 1, 0)
Octet(a, i) == LET o == 8 * (i - 1) IN
   128 * a[o+1] + 64 * a[o+2] + 32 * a[o+3] + 16 * a[o+4] + 8 * a[o+5] + 4 * a[o+6] + 2 * a[o+7] + a[o+8]

(* The vector of width w with value v (w at most 30).                        *)
FromVal(v, w) == TLCEval([i \in 1..w |-> (v \div (2 ^ (w - i))) % 2])

AllVecs(w) == [1..w -> {0, 1}]
============================================================================
