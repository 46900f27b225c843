------------------------------- MODULE MCBig -------------------------------
(* The operations on big integers agree with those on integers.            *)
EXTENDS Big, TLC
CONSTANT Bound
VARIABLES a, b
Init == a \in -Bound..Bound /\ b \in -Bound..Bound
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Normal(x) == x.d = <<>> \/ x.d[Len(x.d)] # 0
Agree ==
  LET x == Big(a)
      y == Big(b) IN
  /\ BAdd(x, y) = Big(a + b) /\ Normal(BAdd(x, y))
  /\ BSub(x, y) = Big(a - b) /\ Normal(BSub(x, y))
  /\ BMul(x, y) = Big(a * b) /\ Normal(BMul(x, y))
  /\ BLe(x, y) <=> a <= b
  /\ BNeg(x) = Big(-a) /\ BAbsOf(x) = Big(BAbs(a))
  /\ b \in 1..4 /\ a \in -8..8 => BPow(x, b) = Big(a ^ b)
=============================================================================
