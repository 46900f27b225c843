------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* A machine reads a word character by character as a number (mantissa,    *)
(* exponent) and as a path (directory, stem, extension).  What it has      *)
(* found is what Text says about the word, and the order of two numbers    *)
(* is the order of the integers they become on a common scale.             *)
(***************************************************************************)
EXTENDS Text, TLC

CONSTANTS NumAlphabet, PathAlphabet, MaxNum, MaxPath

VARIABLES mode, w,
  neg, ds, scale, ph, e, eneg,     \* number: sign, digits so far, digits after the point, phase, exponent
  dir, stem, ext                   \* path

vars == <<mode, w, neg, ds, scale, ph, e, eneg, dir, stem, ext>>

Init ==
  /\ mode \in {"num", "path"} /\ w = ""
  /\ neg = FALSE /\ ds = <<>> /\ scale = 0 /\ ph = "start" /\ e = <<>> /\ eneg = FALSE
  /\ dir = "" /\ stem = "" /\ ext = ""

(* ph: start, whole, fraction, expstart, expsign, exponent, bad *)
ReadNum(c) ==
  /\ mode = "num" /\ Len(w) < MaxNum
  /\ w' = w \o c
  /\ ph' = CASE ph = "bad" -> "bad"
             [] c = "-" -> (IF ph = "start" THEN "whole" ELSE IF ph = "expstart" THEN "expsign" ELSE "bad")
             [] c = "." -> (IF ph \in {"start", "whole"} THEN "fraction" ELSE "bad")
             [] c = "e" -> (IF ph \in {"start", "whole", "fraction"} /\ ds # <<>> THEN "expstart" ELSE "bad")
             [] OTHER -> (IF ph = "start" THEN "whole"
                          ELSE IF ph \in {"expstart", "expsign"} THEN "exponent" ELSE ph)
  /\ neg' = (neg \/ (c = "-" /\ ph = "start"))
  /\ eneg' = (eneg \/ (c = "-" /\ ph = "expstart"))
  /\ ds' = IF IsDigit(c) /\ ph \in {"start", "whole", "fraction"} THEN Append(ds, Digit(c)) ELSE ds
  /\ scale' = IF IsDigit(c) /\ ph = "fraction" THEN scale + 1 ELSE scale
  /\ e' = IF IsDigit(c) /\ ph \in {"expstart", "expsign", "exponent"} THEN Append(e, Digit(c)) ELSE e
  /\ UNCHANGED <<mode, dir, stem, ext>>

ReadPath(c) ==
  /\ mode = "path" /\ Len(w) < MaxPath
  /\ w' = w \o c
  /\ CASE c = "/" -> dir' = w' /\ stem' = "" /\ ext' = ""
       [] c = "." -> stem' = stem \o ext /\ ext' = "." /\ dir' = dir
       [] OTHER -> /\ dir' = dir
                   /\ IF ext = "" THEN stem' = stem \o c /\ ext' = "" ELSE stem' = stem /\ ext' = ext \o c
  /\ UNCHANGED <<mode, neg, ds, scale, ph, e, eneg>>

Next == (\E c \in NumAlphabet : ReadNum(c)) \/ (\E c \in PathAlphabet : ReadPath(c))
Spec == Init /\ [][Next]_vars

RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE 10 * Value(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

IsNum == ph # "bad" /\ ds # <<>> /\ ph \notin {"expstart", "expsign"}
Exponent == (IF eneg THEN -1 ELSE 1) * Value(e) - scale
Mantissa == (IF neg THEN -1 ELSE 1) * Value(ds)

(* x = m * 10^k in the form of Text *)
Is(x, m, k) ==
  IF m = 0 THEN x = Zero
  ELSE /\ x.s = (IF m < 0 THEN -1 ELSE 1)
       /\ x.d[1] # 0 /\ x.d[Len(x.d)] # 0
       /\ LET q == x.p - Len(x.d)                  \* x = Value(d) * 10^q
              a == IF m < 0 THEN -m ELSE m IN
          IF q >= k THEN (q - k) <= 6 /\ a = Value(x.d) * Pow10(q - k)
          ELSE (k - q) <= 6 /\ a * Pow10(k - q) = Value(x.d)

Refs == {<<w2, m2, k2>> \in {<<"0", 0, 0>>, <<"1", 1, 0>>, <<"-1", -1, 0>>, <<"0.2", 2, -1>>, <<"12", 12, 0>>,
           <<"-12.1", -121, -1>>, <<"2e1", 2, 1>>, <<"-0.02", -2, -2>>, <<"100", 1, 2>>} : TRUE}

LessInt(m1, k1, m2, k2) ==
  IF k1 >= k2 THEN m1 * Pow10(k1 - k2) < m2 ELSE m1 < m2 * Pow10(k2 - k1)

Numbers ==
  mode = "num" =>
    /\ (DecWord(w) # <<>>) = IsNum
    /\ (IntWord(w) # <<>>) = (IsNum /\ ph = "whole")
    /\ IsNum => /\ Is(DecWord(w)[1], Mantissa, Exponent)
                /\ ph = "whole" => IntWord(w) = DecWord(w) /\ IsInteger(DecWord(w)[1])
    /\ (IsNum /\ Exponent \in -5..4) =>
         \A r \in Refs : /\ NumLess(DecWord(w)[1], DecWord(r[1])[1]) = LessInt(Mantissa, Exponent, r[2], r[3])
                         /\ NumLess(DecWord(r[1])[1], DecWord(w)[1]) = LessInt(r[2], r[3], Mantissa, Exponent)

Paths ==
  mode = "path" =>
    /\ DirOf(w) = dir /\ CoreOf(w) = stem /\ ExtOf(w) = ext
    /\ DirOf(w) \o CoreOf(w) \o ExtOf(w) = w
    /\ Sister(w, ".x") = DirOf(w) \o CoreOf(w) \o ".x"
    /\ Sister(Sister(w, ".x"), ".y") = Sister(w, ".y")
    /\ Components(w) = Components(DirOf(w)) \o Components(LastOf(w))
    /\ \A i \in DOMAIN Components(w) : Slashes(Components(w)[i]) = {} /\ Components(w)[i] # ""
=============================================================================
