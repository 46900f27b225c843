------------------------------ MODULE MCMatch ------------------------------
(***************************************************************************)
(* Design check of the matching: every pair of atoms is compared, a later  *)
(* hit replaces an earlier one.  Geometries of small numbers of atoms with *)
(* coordinates next to the limits of rounding, written out for the code.   *)
(***************************************************************************)
EXTENDS Atoms, TLC, Json, CSV, IOUtils

CONSTANTS Coords, Dims, MaxOne, MaxOther, MaxDigits, MinDigits

Few == {-1000049, -51, -49, 0, 49, 1499951}
More == {-99999951, -1000051, -1000049, -51, -49, 0, 49, 51, 1499949, 1499951}

VARIABLES xs, ys, d, m, i, k, pc
vars == <<xs, ys, d, m, i, k, pc>>

Corners == {0, 1000000}
Cross == {-1000000, 0, 1000000}

Geometries(max) == UNION {[1..n -> [1..Dims -> Coords]] : n \in 1..max}

Init == /\ xs \in Geometries(MaxOne) /\ ys \in Geometries(MaxOther) /\ d \in MinDigits..MaxDigits
        /\ m = [a \in DOMAIN xs |-> -1]
        /\ i = 1 /\ k = 1 /\ pc = "compare"

Compare ==
  /\ pc = "compare"
  /\ m' = IF SameAtom(xs[i], ys[k], d) THEN [m EXCEPT ![i] = k] ELSE m
  /\ IF k < Len(ys) THEN k' = k + 1 /\ i' = i /\ pc' = pc
     ELSE /\ k' = 1
          /\ IF i < Len(xs) THEN i' = i + 1 /\ pc' = pc ELSE i' = i /\ pc' = "done"
  /\ UNCHANGED <<xs, ys, d>>

Spec == Init /\ [][Compare]_vars

Matched == pc = "done" => IsMatching(xs, ys, d, m) /\ m = MatchingOf(xs, ys, d)

(* Rounding: nearest, idempotent, symmetric about zero. *)
Rounding ==
  \A c \in Coords :
    LET u == Pow10(Scale - d)
        r == RoundTo(c, d) IN
    /\ RoundTo(r * u, d) = r
    /\ RoundTo(-c, d) = -r
    /\ r * u - c <= u \div 2 /\ c - r * u <= u \div 2

Emit ==
  (pc = "compare" /\ i = 1 /\ k = 1 /\ "EMIT" \in DOMAIN IOEnv)
    => CSVWrite("%1$s", <<ToJson([xs |-> xs, ys |-> ys, d |-> d])>>, IOEnv.EMIT)
=============================================================================
