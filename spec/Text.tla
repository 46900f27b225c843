-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Words, numbers and paths as strings.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Char(s, i) == SubSeq(s, i, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Positions(s, c) == {i \in 1..Len(s) : Char(s, i) = c}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* Numbers: 0.d1 d2 ... * 10^p with the sign s in -1..1; without leading   *)
(* and trailing zeros among the digits, so that every value has one form.  *)

DigitChars == "0123456789"
IsDigit(c) == \E k \in 1..10 : Char(DigitChars, k) = c
Digit(c) == (CHOOSE k \in 1..10 : Char(DigitChars, k) = c) - 1
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(Char(s, i))

RECURSIVE Nat10(_)
Nat10(s) == IF s = "" THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + Digit(Char(s, Len(s)))

Zero == [s |-> 0, d |-> <<>>, p |-> 0]

(* sign, string of digits, number of digits before the point *)
Canonical(s, ds, p) ==
  LET nz == {i \in 1..Len(ds) : Char(ds, i) # "0"} IN
  IF nz = {} THEN Zero
  ELSE LET a == MinOf(nz)
           b == MaxOf(nz) IN
       [s |-> s, d |-> [i \in 1..(b - a + 1) |-> Digit(Char(ds, a + i - 1))], p |-> p - a + 1]

IsInteger(x) == Len(x.d) <= x.p \/ x.s = 0

(* The number a word stands for: <<>> when it is none.  Whole words only.  *)
Unsigned(w) == IF Starts(w, "-") THEN SubSeq(w, 2, Len(w)) ELSE w
Sign(w) == IF Starts(w, "-") THEN -1 ELSE 1

IntWord(w) ==
  LET u == Unsigned(w) IN
  IF u # "" /\ AllDigits(u) THEN <<Canonical(Sign(w), u, Len(u))>> ELSE <<>>

DecWord(w) ==
  LET u == Unsigned(w)
      es == Positions(u, "e") \cup Positions(u, "E")
      m == IF es = {} THEN u ELSE SubSeq(u, 1, MinOf(es) - 1)
      x == IF es = {} THEN "0" ELSE SubSeq(u, MinOf(es) + 1, Len(u))
      xu == IF Starts(x, "+") \/ Starts(x, "-") THEN SubSeq(x, 2, Len(x)) ELSE x
      dots == Positions(m, ".")
      before == IF dots = {} THEN m ELSE SubSeq(m, 1, MinOf(dots) - 1)
      after == IF dots = {} THEN "" ELSE SubSeq(m, MinOf(dots) + 1, Len(m)) IN
  IF /\ Cardinality(es) <= 1 /\ Cardinality(dots) <= 1
     /\ before \o after # "" /\ AllDigits(before \o after)
     /\ xu # "" /\ Len(xu) <= 6 /\ AllDigits(xu)
  THEN <<Canonical(Sign(w), before \o after,
                   Len(before) + (IF Starts(x, "-") THEN -1 ELSE 1) * Nat10(xu))>>
  ELSE <<>>

RECURSIVE SeqLess(_, _)
SeqLess(a, b) ==
  IF b = <<>> THEN FALSE
  ELSE IF a = <<>> THEN TRUE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
  ELSE SeqLess(Tail(a), Tail(b))

MagLess(a, b) == a.p < b.p \/ (a.p = b.p /\ SeqLess(a.d, b.d))

NumLess(a, b) ==
  IF a.s # b.s THEN a.s < b.s
  ELSE IF a.s = 0 THEN FALSE
  ELSE IF a.s = 1 THEN MagLess(a, b) ELSE MagLess(b, a)

Within(x, lo, hi) == ~NumLess(x, lo) /\ ~NumLess(hi, x)

IntMin == IntWord("-2147483648")[1]
IntMax == IntWord("2147483647")[1]
(* Close to the largest double; numbers in between are not used. *)
DecMin == DecWord("-1.79769e308")[1]
DecMax == DecWord("1.79769e308")[1]

-----------------------------------------------------------------------------
(* Paths *)
Slashes(p) == Positions(p, "/")
DirOf(p) == IF Slashes(p) = {} THEN "" ELSE SubSeq(p, 1, MaxOf(Slashes(p)))
LastOf(p) == SubSeq(p, Len(DirOf(p)) + 1, Len(p))
Dots(p) == Positions(LastOf(p), ".")
ExtOf(p) == IF Dots(p) = {} THEN "" ELSE SubSeq(LastOf(p), MaxOf(Dots(p)), Len(LastOf(p)))
CoreOf(p) == IF Dots(p) = {} THEN LastOf(p) ELSE SubSeq(LastOf(p), 1, MaxOf(Dots(p)) - 1)
Sister(p, ext) == DirOf(p) \o CoreOf(p) \o ext

RECURSIVE Components(_)
Components(p) ==
  IF Slashes(p) = {} THEN (IF p = "" THEN <<>> ELSE <<p>>)
  ELSE LET k == MinOf(Slashes(p))
           h == SubSeq(p, 1, k - 1) IN
       (IF h = "" THEN <<>> ELSE <<h>>) \o Components(SubSeq(p, k + 1, Len(p)))

(* A file system: directories and files, each the sequence of components   *)
(* from the top; relative paths start at Here, for which HereName stands.  *)
Here == <<"up", "here">>
HereName == "@HERE@"

RECURSIVE Go(_, _, _)
Go(fs, at, cs) ==
  IF cs = <<>> THEN <<at>>
  ELSE IF at \notin fs.dirs THEN <<>>
  ELSE IF Head(cs) \in {".", HereName} THEN Go(fs, at, Tail(cs))
  ELSE IF Head(cs) = ".." THEN (IF at = <<>> THEN <<>> ELSE Go(fs, SubSeq(at, 1, Len(at) - 1), Tail(cs)))
  ELSE Go(fs, Append(at, Head(cs)), Tail(cs))

(* Where a path leads to: <<>> or <<place>>. *)
Resolve(fs, p) == IF p = "" THEN <<>> ELSE Go(fs, Here, Components(p))
Exists(fs, p) ==
  LET r == Resolve(fs, p) IN
  /\ r # <<>>
  /\ \/ r[1] \in fs.dirs
     \/ r[1] \in fs.files /\ Char(p, Len(p)) # "/"
=============================================================================
