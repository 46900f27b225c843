----------------------------- MODULE MCComplexes -----------------------------
(***************************************************************************)
(* All histories of two complexes that share their matrices, the way the   *)
(* program keeps them: a complex refers to matrices; lining up makes new   *)
(* ones and lets the complex refer to those.  Every answer is the one that *)
(* Complexes gives, and the caller's matrices stay what they were.  The    *)
(* histories are written out, to be run on the code.                       *)
(***************************************************************************)
EXTENDS Complexes, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, Kinds     \* Kinds: of complexes (see Args)

VARIABLES heap,      \* all matrices that exist: the caller's, then those made by lining up
          refs,      \* what the complexes refer to
          slots,     \* the specification's view
          hist
vars == <<heap, refs, slots, hist>>

Slots == {1, 2}

(* Two atoms, one function each; counterpoise has monomers 3 and 4. *)
Store ==
  << << <<3>> >>, << <<-5>>, <<7>> >>,
     << <<2, 9>>, <<-4, 1>> >>, << <<8, -6>> >>,
     << <<11, -3>>, <<5, 13>> >>,
     << <<1000, 210>>, <<210, 1000>> >>,
     << <<-700>>, <<300>> >> >>

(* 1: without counterpoise, 2: with, 3: with, of one monomer and itself,   *)
(* 4: shapes that do not fit                                               *)
Args(k) ==
  [cp |-> k # 1, i1 |-> IF k = 1 THEN 1 ELSE 3, i2 |-> CASE k = 1 -> 2 [] k = 3 -> 3 [] OTHER -> IF k = 4 THEN 2 ELSE 4,
   ip |-> 5, is |-> 6, ie |-> 7,
   n1 |-> IF k = 1 THEN 1 ELSE 2, h1 |-> 1,
   n2 |-> CASE k = 1 -> 2 [] k = 3 -> 2 [] OTHER -> 1, h2 |-> 1]

Place(a) == <<a * 1000100, -a * 700000, 0>>
(* 1: the atoms are in order, 2: in another order, 3: one has no partner *)
Geometry(k, g) ==
  LET d == CASE g = 1 -> <<1, 2>> [] g = 2 -> <<2, 1>> [] g = 3 -> <<1, 3>>
      P(q) == [i \in DOMAIN q |-> Place(q[i])] IN
  IF k = 1 THEN [x1 |-> P(<<1>>), x2 |-> P(<<2>>), xp |-> P(d), wp |-> <<1, 1>>, w2 |-> <<1>>]
  ELSE [x1 |-> P(<<1, 2>>), x2 |-> P(<<2, 1>>), xp |-> P(d), wp |-> <<1, 1>>, w2 |-> <<1, 1>>]

(* Orbitals asked for: 1 exists, 2 does not *)
Question(q) == [t1 |-> "HOMO", k1 |-> 0, t2 |-> "HOMO", k2 |-> q - 1]

Empty == [k |-> "none"]
Init == /\ heap = Store /\ refs = [s \in Slots |-> Empty] /\ slots = [s \in Slots |-> NoComplex]
        /\ hist = <<>>

Do(e) == hist' = Append(hist, e)
Ev(op, s, x) == [op |-> op, s |-> s, x |-> x]

(* What the program does *)
Made(k) == LET a == Args(k) IN
  [k |-> "complex", kind |-> k, lined |-> FALSE, a |-> a]
Deref(r) == JobOf(heap, r.a)

Make(s, k) ==
  /\ Do(Ev("make", s, k))
  /\ refs' = [refs EXCEPT ![s] = IF Consistent(JobOf(heap, Args(k))) THEN Made(k) ELSE Empty]
  /\ slots' = [slots EXCEPT ![s] = AfterMake(Store, Args(k))]
  /\ heap' = heap

LineUp(s, g) ==
  LET r == refs[s] IN
  /\ r # Empty /\ ~r.lined
  /\ Do(Ev("line", s, g))
  /\ slots' = [slots EXCEPT ![s] = AfterLineUp(@, Geometry(r.kind, g))]
  /\ LET j == WithGeometry(Deref(r), Geometry(r.kind, g))
         n == Len(heap) IN
     IF ~CanLineUp(j) THEN heap' = heap /\ refs' = [refs EXCEPT ![s] = Empty]
     ELSE /\ heap' = heap \o <<LinedUp(j).m2, LinedUp(j).p, LinedUp(j).s>>
          /\ refs' = [refs EXCEPT ![s] = [@ EXCEPT !.lined = TRUE, !.a.i2 = n + 1, !.a.ip = n + 2, !.a.is = n + 3]]

Copy(s, to) ==
  /\ refs[s] # Empty /\ s # to
  /\ Do(Ev("copy", s, to))
  /\ refs' = [refs EXCEPT ![to] = refs[s]] /\ slots' = [slots EXCEPT ![to] = slots[s]]
  /\ heap' = heap

Drop(s) ==
  /\ refs[s] # Empty
  /\ Do(Ev("drop", s, 0))
  /\ refs' = [refs EXCEPT ![s] = Empty] /\ slots' = [slots EXCEPT ![s] = NoComplex]
  /\ heap' = heap

Ask(s, q) ==
  /\ refs[s] # Empty
  /\ Do(Ev("ask", s, q))
  /\ UNCHANGED <<heap, refs, slots>>

Next ==
  /\ Len(hist) < MaxLen
  /\ \E s \in Slots :
       \/ \E k \in Kinds : Make(s, k)
       \/ \E g \in 1..3 : LineUp(s, g)
       \/ \E to \in Slots : Copy(s, to)
       \/ Drop(s)
       \/ \E q \in {1, 2} : Ask(s, q)
Spec == Init /\ [][Next]_vars

(* The complexes are what the specification says, however they came about *)
Independent == \A s \in Slots :
  IF refs[s] = Empty THEN slots[s] = NoComplex
  ELSE /\ slots[s].k = "job"
       /\ LET q == Question(1)
              x == Expect([Deref(refs[s]) EXCEPT !.t1 = q.t1, !.k1 = q.k1, !.t2 = q.t2, !.k2 = q.k2]) IN
          x = Answer(slots[s], q)
Untouched == \A i \in DOMAIN Store : heap[i] = Store[i]
(* Lining up makes a difference, for it to be worth looking at. *)
Matters == \A k \in {1, 2} :
  LET a == AfterMake(Store, Args(k)) IN
  /\ Answer(AfterLineUp(a, Geometry(k, 2)), Question(1)) # Answer(a, Question(1))
  /\ AfterLineUp(a, Geometry(k, 3)) = NoComplex
  /\ AfterMake(Store, Args(4)) = NoComplex

Latest == hist[Len(hist)]
(* Histories that end by asking and concern both complexes. *)
Emit ==
  "EMIT" \in DOMAIN IOEnv /\ Len(hist) = MaxLen /\ Latest.op = "ask"
  /\ (\E i \in DOMAIN hist : hist[i].s # Latest.s)
  => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.EMIT)
=============================================================================
