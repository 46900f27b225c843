------------------------------ MODULE Transfer ------------------------------
(***************************************************************************)
(* The transfer integral.  A job is a record                               *)
(*   cp               counterpoise?                                        *)
(*   m1, m2, p, s     coefficients of the monomers and of the dimer (one   *)
(*                    row per orbital), overlap matrix                     *)
(*   e                energies of the dimer's orbitals                     *)
(*   n1, h1, n2, h2   number of orbitals and HOMO level of the monomers    *)
(*   t1, k1, t2, k2   orbital asked for: HOMO + k or LUMO + k              *)
(*   un               TRUE: line up the atoms first, by means of           *)
(*   x1, x2, xp       coordinates of the atoms                             *)
(*   wp, w2           numbers of basis functions per atom                  *)
(*                                                                         *)
(*   u                units of the coefficients, overlaps and energies     *)
(*                    (in Hartree): 10^-u.c, 10^-u.s, 10^-u.e; when it is  *)
(*                    missing those of PlainUnits                          *)
(*                                                                         *)
(* All numbers are integers.  In the plain units products of three of them *)
(* are small, in others they are calculated with Big.                      *)
(***************************************************************************)
EXTENDS Atoms, Big

PlainUnits == [c |-> 2, s |-> 3, e |-> 4]
Units(j) == IF "u" \in DOMAIN j THEN j.u ELSE PlainUnits

Digits4 == 4           \* decimals by which atoms are compared

Cols(m) == IF m = <<>> THEN 0 ELSE Len(m[1])

(* 1. The shapes fit together. *)
Consistent(j) ==
  /\ Cols(j.s) = Cols(j.p)
  /\ IF j.cp THEN Cols(j.m1) = Cols(j.p) /\ Cols(j.m2) = Cols(j.p)
     ELSE Cols(j.m1) + Cols(j.m2) <= Cols(j.p)

(* 2. Lining up.  Without counterpoise the dimer's atoms are put in the    *)
(* order of monomer 1, then 2; with counterpoise the atoms of the dimer    *)
(* and of monomer 2 are put in the order of monomer 1.                     *)
Match12(j) == MatchingOf(j.x1, j.x2, Digits4)
Match1P(j) == MatchingOf(j.x1, j.xp, Digits4)
Match2P(j) == MatchingOf(j.x2, j.xp, Digits4)

SumsUp(w, m) == SumSeq(w) = Cols(m)

CanLineUp(j) ==
  /\ SumsUp(j.wp, j.p) /\ Len(j.wp) = Len(j.xp)
  /\ IF j.cp THEN /\ Usable(Match12(j), Len(j.w2)) /\ SumsUp(j.w2, j.m2)
                  /\ Usable(Match1P(j), Len(j.wp))
     ELSE Usable(Match1P(j) \o Match2P(j), Len(j.wp))

(* An order for atoms that belong to no monomer is not needed here. *)
FirstOrder(match, n) ==
  match \o SetToSeq((1..n) \ {match[i] : i \in DOMAIN match})

LinedUp(j) ==
  IF j.cp
  THEN LET cp == ColumnsOf(j.wp, FirstOrder(Match1P(j), Len(j.wp)))
           c2 == ColumnsOf(j.w2, FirstOrder(Match12(j), Len(j.w2))) IN
       [j EXCEPT !.p = TakeCols(@, cp), !.s = TakeBoth(@, cp), !.m2 = TakeCols(@, c2)]
  ELSE LET c == ColumnsOf(j.wp, FirstOrder(Match1P(j) \o Match2P(j), Len(j.wp))) IN
       [j EXCEPT !.p = TakeCols(@, c), !.s = TakeBoth(@, c)]

(* 3. The orbital of a monomer; 0 when there is none. *)
OrbitalRow(n, h, t, k) ==
  IF t = "HOMO" THEN IF k <= 0 /\ -k < h THEN h + k ELSE 0
  ELSE IF t = "LUMO" THEN IF k >= 0 /\ k < n - h THEN h + 1 + k ELSE 0
  ELSE 0

Selected(j) ==
  LET r1 == OrbitalRow(j.n1, j.h1, j.t1, j.k1)
      r2 == OrbitalRow(j.n2, j.h2, j.t2, j.k2) IN
  r1 \in 1..Len(j.m1) /\ r2 \in 1..Len(j.m2)

Orbital1(j) == j.m1[OrbitalRow(j.n1, j.h1, j.t1, j.k1)]
Orbital2(j) == j.m2[OrbitalRow(j.n2, j.h2, j.t2, j.k2)]

(* 4. Projection of the monomer orbitals on the dimer's. *)
Zeros(n) == [i \in 1..n |-> 0]
ZetaA(j) == IF j.cp THEN Orbital1(j) ELSE Orbital1(j) \o Zeros(Cols(j.m2))
ZetaB(j) == IF j.cp THEN Orbital2(j) ELSE Zeros(Cols(j.m1)) \o Orbital2(j)

CanProject(j) ==
  /\ Len(ZetaA(j)) = Len(j.s) /\ Len(ZetaB(j)) = Len(j.s)
  /\ Len(j.e) = Len(j.p)

RECURSIVE Dot(_, _, _)
Dot(x, y, n) == IF n = 0 THEN 0 ELSE x[n] * y[n] + Dot(x, y, n - 1)

(* z S P', a vector with an element per orbital of the dimer; units        *)
(* 10^-(2 u.c + u.s)                                                       *)
Gamma(z, s, p) ==
  LET zs == [c \in 1..Cols(s) |-> Dot(z, [r \in 1..Len(s) |-> s[r][c]], Len(z))] IN
  [k \in 1..Len(p) |-> Dot(zs, p[k], Cols(p))]

BigVec(v) == [i \in DOMAIN v |-> Big(v[i])]
BigMat(m) == [i \in DOMAIN m |-> BigVec(m[i])]

RECURSIVE BDot(_, _, _)
BDot(x, y, n) == IF n = 0 THEN BZero ELSE BAdd(BMul(x[n], y[n]), BDot(x, y, n - 1))

BGamma(z, s, p) ==
  LET zs == [c \in 1..Cols(s) |-> BDot(z, [r \in 1..Len(s) |-> s[r][c]], Len(z))] IN
  [k \in 1..Len(p) |-> BDot(zs, p[k], Cols(p))]

AbsVec(v) == [i \in DOMAIN v |-> BAbs(v[i])]
AbsMat(m) == [i \in DOMAIN m |-> AbsVec(m[i])]

(* Everything up to here as one step. *)
Refused == [k |-> "err"]
Expect(j0) ==
  IF ~Consistent(j0) THEN Refused
  ELSE IF j0.un /\ ~CanLineUp(j0) THEN Refused
  ELSE LET j == IF j0.un THEN LinedUp(j0) ELSE j0 IN
       IF ~Selected(j) THEN Refused
       ELSE IF ~CanProject(j) THEN Refused
       ELSE LET u == Units(j)
                G(z, s, p) == IF u = PlainUnits THEN Gamma(z, s, p)
                              ELSE BGamma(BigVec(z), BigMat(s), BigMat(p)) IN
            [k |-> "ok", e |-> j.e, u |-> u,
             a  |-> G(ZetaA(j), j.s, j.p),
             b  |-> G(ZetaB(j), j.s, j.p),
             aa |-> G(AbsVec(ZetaA(j)), AbsMat(j.s), AbsMat(j.p)),
             ab |-> G(AbsVec(ZetaB(j)), AbsMat(j.s), AbsMat(j.p))]

-----------------------------------------------------------------------------
(* 5. The integrals.  Weighted sums of the two projections.                *)
RECURSIVE BDotE(_, _, _, _)
BDotE(x, y, e, n) ==
  IF n = 0 THEN BZero
  ELSE BAdd(BMul(BMul(x[n], y[n]), Big(e[n])), BDotE(x, y, e, n - 1))

BOverlap(x, y) == BDot(x, y, Len(x))             \* units 10^-2g, g = 2 u.c + u.s
BEnergy(x, y, e) == BDotE(x, y, e, Len(x))       \* units 10^-(2g + u.e) Hartree

Overlap(x, y) == BOverlap(BigVec(x), BigVec(y))
Energy(x, y, e) == BEnergy(BigVec(x), BigVec(y), e)

(* The value v (units 10^-u) lies within tol (same units) of              *)
(* m * 10^x, give or take half of the digit 10^h.                          *)
Near(v, u, m, x, h, tol) ==
  LET low == BMin(BMin(-u, x), h - 1)
      V == BMul(v, B10(-u - low))
      M == BMul(m, B10(x - low))
      T == BAdd(BMul(tol, B10(-u - low)), BMul(Big(5), B10(h - 1 - low))) IN
  BLe(BAbsOf(BSub(V, M)), T)

NoDigit == -90     \* no allowance for rounded digits

Tiny(b) == BAdd([s |-> b.s, d |-> SubSeq(b.d, 4, Len(b.d))], Big(1)) \* > b 10^-12 if Base = 10^4

(* A printed number r: [m |-> big, x |-> exponent, h |-> exponent of its   *)
(* sixth digit], equals v (units 10^-u) times f.                           *)
Printed(r, v, u, abs) == Near(v, u, r.m, r.x, r.h, Tiny(abs))

eV == Big(272114)      \* units 10^-4

(* The returned J_eff, jm * 10^jx (all digits of a double), solves         *)
(* 2 J_eff (1 - S^2) = 2 J - (e_a + e_b) S.                                *)
(* n: S is in units of 10^-n, J and the energies in units of 10^-(n + ue). *)
SolvesTwoState(jm, jx, J, ea, eb, S, Jabs, eabs, Sabs, n, ue) ==
  LET S2   == BMul(S, S)                                          \* 10^-2n
      rhs  == BSub(BMul(BMul(Big(2), J), B10(n)), BMul(BAdd(ea, eb), S))   \* 10^-(2n + ue)
      rabs == BAdd(BMul(BMul(Big(2), Jabs), B10(n)), BMul(eabs, Sabs))
      lhs  == BMul(BMul(Big(2), jm), BSub(B10(2 * n), S2))        \* 10^(jx - 2n)
      labs == BMul(BMul(Big(2), BAbsOf(jm)), BAdd(B10(2 * n), BMul(Sabs, Sabs)))
      low  == BMin(-2 * n - ue, jx - 2 * n)
      L == BMul(lhs, B10(jx - 2 * n - low))
      R == BMul(rhs, B10(-2 * n - ue - low))
      T == BAdd(BMul(labs, B10(jx - 2 * n - low)), BMul(rabs, B10(-2 * n - ue - low))) IN
  BLe(BAbsOf(BSub(L, R)), Tiny(T))

(* S_ab = 1 or -1 leaves J_eff undefined. *)
Bigs(x, v) == IF x.u = PlainUnits THEN BigVec(v) ELSE v
UnitG(x) == 2 * x.u.c + x.u.s
Degenerate(x) ==
  LET S == BOverlap(Bigs(x, x.b), Bigs(x, x.a)) IN BMul(S, S) = B10(4 * UnitG(x))

(* The printed J_eff does, within its six digits. *)
PrintedTwoState(r, J, ea, eb, S, Jabs, eabs, Sabs, n, ue) ==
  LET S2   == BMul(S, S)
      rhs  == BMul(BSub(BMul(BMul(Big(2), J), B10(n)), BMul(BAdd(ea, eb), S)), eV)   \* 10^-(2n + ue + 4)
      rabs == BMul(BAdd(BMul(BMul(Big(2), Jabs), B10(n)), BMul(eabs, Sabs)), eV)
      one  == BSub(B10(2 * n), S2)
      lhs  == BMul(BMul(Big(2), r.m), one)                                            \* 10^(x - 2n)
      labs == BMul(BMul(Big(2), BAbsOf(r.m)), BAdd(B10(2 * n), BMul(Sabs, Sabs)))
      ux   == -2 * n - ue - 4
      low  == BMin(BMin(ux, r.x - 2 * n), r.h - 2 * n - 1)
      L == BMul(lhs, B10(r.x - 2 * n - low))
      R == BMul(rhs, B10(ux - low))
      T == BAdd(BMul(labs, B10(r.x - 2 * n - low)), BMul(rabs, B10(ux - low)))
      H == BMul(BMul(Big(10), BAbsOf(one)), B10(r.h - 2 * n - 1 - low)) IN
  BLe(BAbsOf(BSub(L, R)), BAdd(Tiny(T), H))

(* The five printed numbers of a successful run; whole: J_eff is known     *)
(* with all its digits, jm * 10^jx.                                        *)
ReportsAs(x, r, whole) ==
  LET a    == Bigs(x, x.a)
      b    == Bigs(x, x.b)
      aa   == Bigs(x, x.aa)
      ab   == Bigs(x, x.ab)
      n    == 2 * UnitG(x)
      u    == n + x.u.e + 4
      J    == BEnergy(b, a, x.e)
      ea   == BEnergy(a, a, x.e)
      eb   == BEnergy(b, b, x.e)
      S    == BOverlap(b, a)
      ae   == AbsVec(x.e)
      Jabs == BEnergy(ab, aa, ae)
      aabs == BEnergy(aa, aa, ae)
      babs == BEnergy(ab, ab, ae)
      Sabs == BOverlap(ab, aa)
  IN
  /\ Printed(r.J_ab, BMul(J, eV), u, BMul(Jabs, eV))
  /\ Printed(r.e_a, BMul(ea, eV), u, BMul(aabs, eV))
  /\ Printed(r.e_b, BMul(eb, eV), u, BMul(babs, eV))
  /\ Printed(r.S_ab, S, n, Sabs)
  /\ IF whole
     THEN /\ SolvesTwoState(r.jm, r.jx, J, ea, eb, S, Jabs, BAdd(aabs, babs), Sabs, n, x.u.e)
          /\ Printed(r.J_eff, BMul(r.jm, eV), 4 - r.jx, BMul(BAbsOf(r.jm), eV))
     ELSE PrintedTwoState(r.J_eff, J, ea, eb, S, Jabs, BAdd(aabs, babs), Sabs, n, x.u.e)
Reports(x, r) == ReportsAs(x, r, TRUE)
Prints(x, r) == ReportsAs(x, r, FALSE)
=============================================================================
