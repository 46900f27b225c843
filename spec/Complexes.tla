------------------------------ MODULE Complexes ------------------------------
(***************************************************************************)
(* Several transfer calculations at a time (C29).  The caller owns the     *)
(* matrices, store; complexes are made of some of them, copied, lined up,  *)
(* asked and destroyed.  What a complex is asked depends on nothing but    *)
(* what it was made of and how it was lined up, and the store never        *)
(* changes.                                                                *)
(*                                                                         *)
(* A slot is NoComplex or [k |-> "job", j |-> the job that the complex     *)
(* would do, lined up].                                                    *)
(***************************************************************************)
EXTENDS Transfer

NoComplex == [k |-> "none"]
Holding(j) == [k |-> "job", j |-> j]

(* A job out of matrices i1, i2, ip, is, ie of the store.  Orbitals are    *)
(* named when it is asked.                                                 *)
JobOf(store, a) ==
  [cp |-> a.cp, m1 |-> store[a.i1], m2 |-> store[a.i2], p |-> store[a.ip], s |-> store[a.is],
   e |-> [k \in DOMAIN store[a.ie] |-> store[a.ie][k][1]],
   n1 |-> a.n1, h1 |-> a.h1, n2 |-> a.n2, h2 |-> a.h2,
   t1 |-> "", k1 |-> 0, t2 |-> "", k2 |-> 0,
   un |-> FALSE, x1 |-> <<>>, x2 |-> <<>>, xp |-> <<>>, wp |-> <<>>, w2 |-> <<>>]

(* Making one *)
AfterMake(store, a) ==
  LET j == JobOf(store, a) IN IF Consistent(j) THEN Holding(j) ELSE NoComplex

(* Lining one up by the geometry g *)
WithGeometry(j, g) ==
  [j EXCEPT !.x1 = g.x1, !.x2 = g.x2, !.xp = g.xp, !.wp = g.wp, !.w2 = g.w2]
AfterLineUp(slot, g) ==
  LET j == WithGeometry(slot.j, g) IN
  IF CanLineUp(j) THEN Holding(LinedUp(j)) ELSE NoComplex

(* Asking one *)
Answer(slot, q) ==
  Expect([slot.j EXCEPT !.t1 = q.t1, !.k1 = q.k1, !.t2 = q.t2, !.k2 = q.k2])
=============================================================================
