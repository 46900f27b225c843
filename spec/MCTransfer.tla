----------------------------- MODULE MCTransfer -----------------------------
(***************************************************************************)
(* Design check of the calculation as the program carries it out: check    *)
(* the shapes, line up the atoms, select the orbitals, project.  `base' is *)
(* a job whose atoms are in order, `job' the same system with its atoms    *)
(* listed in another order.  Whatever the order, the projections are those *)
(* of base; a job is refused exactly when one of the conditions fails.     *)
(* The jobs are written out, to be run on the code.                        *)
(***************************************************************************)
EXTENDS Transfer, TLC, Json, CSV, IOUtils

CONSTANTS Family,     \* which jobs: "orders", "select", "shapes", "atoms"
          MaxMon      \* atoms of a monomer

VARIABLES base, job, cur, pc, result

vars == <<base, job, cur, pc, result>>

-----------------------------------------------------------------------------
(* Numbers without any symmetry *)
Coef(x, i, j) == ((i * 71 + j * 53 + i * j * 37 + x * 29 + i * i * 13) % 199) - 99
Mono(x, rows, cols) == [i \in 1..rows |-> [j \in 1..cols |-> Coef(x, i, j)]]
Sab(i, j) == IF i = j THEN 1000
             ELSE (((i + j) * 131 + i * j * 71) % 1999) - 999
Smat(r, c) == [i \in 1..r |-> [j \in 1..c |-> Sab(i, j)]]
Ener(k) == k * k * 311 - 4321

(* Atom a sits at a place of its own. *)
Place(a) == <<a * 1000100, -a * 700000, ((a % 2) * 123456) - 5000049>>

Job(cp, m1, m2, p, s, e, n1, h1, n2, h2, t1, k1, t2, k2, un, x1, x2, xp, wp, w2) ==
  [cp |-> cp, m1 |-> m1, m2 |-> m2, p |-> p, s |-> s, e |-> e, n1 |-> n1, h1 |-> h1,
   n2 |-> n2, h2 |-> h2, t1 |-> t1, k1 |-> k1, t2 |-> t2, k2 |-> k2, un |-> un,
   x1 |-> x1, x2 |-> x2, xp |-> xp, wp |-> wp, w2 |-> w2]

Plain(cp, c1, c2, np, cP, r, c, ne) ==
  Job(cp, Mono(1, 3, c1), Mono(2, 3, c2), Mono(3, np, cP), Smat(r, c),
      [k \in 1..ne |-> Ener(k)], 3, 2, 3, 1, "HOMO", 0, "LUMO", 0, FALSE,
      <<>>, <<>>, <<>>, <<>>, <<>>)

Width(s, a) == ((a + s) % 2) + 1 + (IF a = 3 THEN 1 ELSE 0)

(* A system of na + nb atoms in the order of the monomers. *)
System(cp, na, nb, s) ==
  LET n  == na + nb
      w  == [a \in 1..n |-> Width(s, a)]
      f  == SumSeq(w)
      fa == SumSeq(SubSeq(w, 1, na))
      c1 == IF cp THEN f ELSE fa
      c2 == IF cp THEN f ELSE f - fa
      x  == [a \in 1..n |-> Place(a)] IN
  Job(cp, Mono(1, 3, c1), Mono(2, 3, c2), Mono(3, f, f), Smat(f, f),
      [k \in 1..f |-> Ener(k)], 3, 2, 3, 1, "HOMO", 0, "LUMO", 0, TRUE,
      IF cp THEN x ELSE SubSeq(x, 1, na), IF cp THEN x ELSE SubSeq(x, na + 1, n), x,
      w, IF cp THEN w ELSE SubSeq(w, na + 1, n))

Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}

(* The dimer's atoms in the order q, with counterpoise those of monomer 2  *)
(* in the order q2.                                                        *)
Scramble(j, q, q2) ==
  LET c == ColumnsOf(j.wp, q)
      d == [j EXCEPT !.p = TakeCols(@, c), !.s = TakeBoth(@, c),
                     !.xp = [i \in DOMAIN q |-> @[q[i]]],
                     !.wp = [i \in DOMAIN q |-> @[q[i]]]] IN
  IF ~j.cp THEN d
  ELSE [d EXCEPT !.m2 = TakeCols(@, ColumnsOf(j.w2, q2)),
                 !.x2 = [i \in DOMAIN q2 |-> @[q2[i]]],
                 !.w2 = [i \in DOMAIN q2 |-> @[q2[i]]]]

Orders1 ==
  \E na, nb \in 1..MaxMon : \E s \in 0..1 : \E cp \in BOOLEAN :
    \E q \in Perms(na + nb) :
      \E q2 \in IF cp /\ na + nb <= 3 THEN Perms(na + nb)
                ELSE IF cp THEN {q, [i \in 1..(na + nb) |-> q[na + nb + 1 - i]],
                                 [i \in 1..(na + nb) |-> i]}
                ELSE {[i \in 1..(na + nb) |-> i]} :
        /\ base = System(cp, na, nb, s)
        /\ job = Scramble(base, q, q2)

Select1 ==
  \E n \in 1..3 : \E h \in 0..n : \E t \in {"HOMO", "LUMO", "SOMO"} : \E k \in -4..4 :
  \E who \in 1..2 : \E cp \in BOOLEAN :
    LET j == Plain(cp, IF cp THEN 4 ELSE 1, IF cp THEN 4 ELSE 3, 4, 4, 4, 4, 4) IN
    /\ job = IF who = 1
             THEN [j EXCEPT !.n1 = n, !.h1 = h, !.t1 = t, !.k1 = k, !.m1 = SubSeq(@, 1, n)]
             ELSE [j EXCEPT !.n2 = n, !.h2 = h, !.t2 = t, !.k2 = k, !.m2 = SubSeq(@, 1, n)]
    /\ base = job

Shapes1 ==
  \E c1, c2 \in 1..3 : \E cP, r \in 1..4 : \E np, ne \in 1..3 : \E cp \in BOOLEAN :
    /\ job = Plain(cp, c1, c2, np, cP, r, r, ne)
    /\ base = job

(* One atom of one geometry is somewhere else, or where another one is. *)
Atoms1 ==
  \E na, nb \in 1..MaxMon : \E cp \in BOOLEAN : \E g \in {"x1", "x2", "xp"} :
  \E a, b \in 1..(na + nb) :
    LET j == System(cp, na, nb, 0) IN
    /\ a \in DOMAIN j[g]
    /\ job = IF a = b THEN [j EXCEPT ![g][a] = <<1, 2, 3>>]
             ELSE [j EXCEPT ![g][a] = Place(b)]
    /\ base = job

Init ==
  /\ CASE Family = "orders" -> Orders1
       [] Family = "select" -> Select1
       [] Family = "shapes" -> Shapes1
       [] Family = "atoms"  -> Atoms1
  /\ cur = job /\ pc = "made" /\ result = <<>>

Construct == /\ pc = "made"
             /\ pc' = IF Consistent(cur) THEN "consistent" ELSE "refused"
             /\ UNCHANGED <<base, job, cur, result>>

LineUp == /\ pc = "consistent"
          /\ IF ~cur.un THEN pc' = "lined" /\ cur' = cur
             ELSE IF CanLineUp(cur) THEN pc' = "lined" /\ cur' = LinedUp(cur)
             ELSE pc' = "refused" /\ cur' = cur
          /\ UNCHANGED <<base, job, result>>

Choose == /\ pc = "lined"
          /\ pc' = IF Selected(cur) THEN "selected" ELSE "refused"
          /\ UNCHANGED <<base, job, cur, result>>

Project == /\ pc = "selected"
           /\ IF CanProject(cur)
              THEN /\ result' = <<Gamma(ZetaA(cur), cur.s, cur.p),
                                  Gamma(ZetaB(cur), cur.s, cur.p)>>
                   /\ pc' = "done"
              ELSE pc' = "refused" /\ result' = result
           /\ UNCHANGED <<base, job, cur>>

Next == Construct \/ LineUp \/ Choose \/ Project
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* C01, C02: the result is that of the system, not of the order. *)
OrderIrrelevant ==
  pc = "done" => LET x == Expect([base EXCEPT !.un = FALSE]) IN
                 x.k = "ok" /\ result = <<x.a, x.b>>

(* C02: lining up undoes every change of order. *)
Undone == Family = "orders" /\ pc = "lined" =>
            cur.p = base.p /\ cur.s = base.s /\ cur.m2 = base.m2

(* C05, C06, C04: what is refused and what is not. *)
Decision ==
  /\ pc = "done" => Expect(job).k = "ok"
  /\ pc = "refused" => Expect(job).k = "err"
  /\ Family = "orders" => pc # "refused"
  /\ Family = "select" /\ pc = "done" =>
       /\ job.t1 \in {"HOMO", "LUMO"} /\ job.t2 \in {"HOMO", "LUMO"}
       /\ job.t1 = "HOMO" => job.h1 + job.k1 \in 1..job.h1
       /\ job.t1 = "LUMO" => job.h1 + 1 + job.k1 \in (job.h1 + 1)..job.n1
       /\ job.t2 = "HOMO" => job.h2 + job.k2 \in 1..job.h2
       /\ job.t2 = "LUMO" => job.h2 + 1 + job.k2 \in (job.h2 + 1)..job.n2

Ends == <>(pc \in {"done", "refused"})

(* Exchanging the monomers, changing the sign of an orbital (C01). *)
Neg(v) == [i \in DOMAIN v |-> -v[i]]
Symmetries ==
  pc = "done" =>
    LET a == result[1]
        b == result[2] IN
    /\ Overlap(a, b) = Overlap(b, a)
    /\ Energy(a, b, cur.e) = Energy(b, a, cur.e)
    /\ Overlap(Neg(a), b) = BNeg(Overlap(a, b))
    /\ Energy(Neg(a), b, cur.e) = BNeg(Energy(a, b, cur.e))
    /\ Energy(Neg(a), Neg(a), cur.e) = Energy(a, a, cur.e)
    /\ Gamma(Neg(ZetaA(cur)), cur.s, cur.p) = Neg(a)

Emit ==
  (pc = "made" /\ "EMIT" \in DOMAIN IOEnv)
    => CSVWrite("%1$s", <<ToJson([base |-> base, job |-> job])>>, IOEnv.EMIT)
=============================================================================
