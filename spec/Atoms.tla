------------------------------- MODULE Atoms -------------------------------
(***************************************************************************)
(* Atoms of two geometries are matched by position, and the blocks of      *)
(* basis functions of one of them are put in the order of the other.       *)
(*                                                                         *)
(* Coordinates are integers, Scale digits after the decimal point.         *)
(* Matrices are sequences of rows.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Scale == 6

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

(* v rounded to d decimals, as a number of units of 10^-d; half of a unit  *)
(* is rounded away from zero.  There is one zero.                          *)
RoundTo(v, d) ==
  LET u == Pow10(Scale - d) IN
  IF v >= 0 THEN (v + u \div 2) \div u ELSE -((-v + u \div 2) \div u)

SameAtom(x, y, d) == \A i \in DOMAIN x : RoundTo(x[i], d) = RoundTo(y[i], d)

Candidates(x, ys, d) == {b \in DOMAIN ys : SameAtom(x, ys[b], d)}

(* m is a matching of the atoms xs to the atoms ys. *)
IsMatching(xs, ys, d, m) ==
  /\ Len(m) = Len(xs)
  /\ \A a \in DOMAIN xs :
       LET c == Candidates(xs[a], ys, d) IN
       IF c = {} THEN m[a] = -1 ELSE m[a] \in c

(* The matching when no two atoms of ys are at the same place. *)
MatchingOf(xs, ys, d) ==
  [a \in DOMAIN xs |->
     LET c == Candidates(xs[a], ys, d) IN
     IF c = {} THEN -1 ELSE CHOOSE b \in c : \A x \in c : x <= b]

(* Every atom is matched with an atom of its own. *)
Usable(m, n) ==
  /\ \A i \in DOMAIN m : m[i] \in 1..n
  /\ \A i, j \in DOMAIN m : i # j => m[i] # m[j]

-----------------------------------------------------------------------------
(* Blocks of basis functions; w[a] is the number of functions of atom a.   *)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

Offset(w, a) == SumSeq(SubSeq(w, 1, a - 1))

Block(w, a) == [x \in 1..w[a] |-> Offset(w, a) + x]

(* The columns in the order of the atoms o[1], o[2], ... *)
RECURSIVE ColumnsOf(_, _)
ColumnsOf(w, o) ==
  IF o = <<>> THEN <<>> ELSE Block(w, o[1]) \o ColumnsOf(w, Tail(o))

TakeCols(m, cols) == [i \in DOMAIN m |-> [j \in DOMAIN cols |-> m[i][cols[j]]]]
TakeRows(m, rows) == [i \in DOMAIN rows |-> m[rows[i]]]
TakeBoth(m, idx)  == TakeRows(TakeCols(m, idx), idx)

(* The orders that begin with the matched atoms. *)
Orders(match, n) ==
  LET rest == (1..n) \ {match[i] : i \in DOMAIN match} IN
  IF rest = {} THEN {match} ELSE {match \o p : p \in SetToSeqs(rest)}

IsUnscrambledCoef(out, m, w, match) ==
  \E o \in Orders(match, Len(w)) : out = TakeCols(m, ColumnsOf(w, o))

IsUnscrambledS(out, m, w, match) ==
  \E o \in Orders(match, Len(w)) : out = TakeBoth(m, ColumnsOf(w, o))
=============================================================================
