-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Integers of any size: [s |-> sign (-1, 0, 1), d |-> digits], the digits *)
(* to the base Base from the lowest to the highest, which is not zero.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Base

BMax(a, b) == IF a >= b THEN a ELSE b
BMin(a, b) == IF a <= b THEN a ELSE b
BAbs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Digits(n \div Base)

Big(n) == [s |-> IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0, d |-> Digits(BAbs(n))]

BZero == [s |-> 0, d |-> <<>>]

Dig(d, i) == IF i <= Len(d) THEN d[i] ELSE 0

(* Carries in a sequence of non-negative numbers. *)
RECURSIVE Carry(_, _, _)
Carry(raw, i, c) ==
  IF i > Len(raw) THEN Digits(c)
  ELSE LET v == raw[i] + c IN <<v % Base>> \o Carry(raw, i + 1, v \div Base)

RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d

NatAdd(a, b) ==
  Carry([i \in 1..BMax(Len(a), Len(b)) |-> Dig(a, i) + Dig(b, i)], 1, 0)

RECURSIVE Borrow(_, _, _, _)
Borrow(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET v == a[i] - Dig(b, i) - c IN
       IF v < 0 THEN <<v + Base>> \o Borrow(a, b, i + 1, 1)
       ELSE <<v>> \o Borrow(a, b, i + 1, 0)
NatSub(a, b) == Strip(Borrow(a, b, 1, 0))      \* a >= b

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
  IF i = 0 THEN 0
  ELSE IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE CmpFrom(a, b, i - 1)
NatCmp(a, b) ==
  IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1 ELSE CmpFrom(a, b, Len(a))

RECURSIVE ConvSum(_, _, _, _, _)
ConvSum(a, b, k, i, hi) ==
  IF i > hi THEN 0 ELSE a[i] * b[k - i + 1] + ConvSum(a, b, k, i + 1, hi)

NatMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Strip(Carry([k \in 1..(Len(a) + Len(b) - 1) |->
                      ConvSum(a, b, k, BMax(1, k - Len(b) + 1), BMin(k, Len(a)))], 1, 0))

-----------------------------------------------------------------------------
Sgn(s, d) == IF d = <<>> THEN BZero ELSE [s |-> s, d |-> d]

BNeg(a) == [s |-> -a.s, d |-> a.d]
BAbsOf(a) == [s |-> BAbs(a.s), d |-> a.d]

BAdd(a, b) ==
  IF a.s = 0 THEN b
  ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN Sgn(a.s, NatAdd(a.d, b.d))
  ELSE LET c == NatCmp(a.d, b.d) IN
       IF c = 0 THEN BZero
       ELSE IF c > 0 THEN Sgn(a.s, NatSub(a.d, b.d))
       ELSE Sgn(b.s, NatSub(b.d, a.d))

BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == IF a.s = 0 \/ b.s = 0 THEN BZero ELSE Sgn(a.s * b.s, NatMul(a.d, b.d))

BLe(a, b) == BSub(b, a).s >= 0

RECURSIVE BPow(_, _)
BPow(b, n) == IF n = 0 THEN Big(1)
              ELSE LET h == BPow(b, n \div 2) IN
                   IF n % 2 = 0 THEN BMul(h, h) ELSE BMul(b, BMul(h, h))

B10(n) == BPow(Big(10), n)
=============================================================================
