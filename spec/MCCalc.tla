------------------------------- MODULE MCCalc -------------------------------
(***************************************************************************)
(* Design check of the program: the six files are read in any order, then  *)
(* the spins are looked up, the atoms lined up (or a warning given), the   *)
(* orbitals chosen, the numbers printed.  Any step may refuse.  A          *)
(* configuration c says how the run differs from a plain one; those with   *)
(* up to MaxDev differences are explored, and those with up to EmitDev     *)
(* written out to be run on the program.                                   *)
(*                                                                         *)
(* Files: 1-3 the coefficients of P, 1, 2, files 4-6 their logs.           *)
(***************************************************************************)
EXTENDS CalcJ, Json, CSV, IOUtils

CONSTANTS MaxDev, EmitDev

VARIABLES c, pc, read, cur, warned, result
vars == <<c, pc, read, cur, warned, result>>

Ids == {<<1, 2, 3>>}
Orders3 == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
NoFault == <<0, "">>
Faults ==
  {NoFault} \cup {<<f, w>> : f \in 1..6, w \in {"gone", "cut"}}
            \cup {<<f, w>> : f \in 1..3, w \in {"nobeta", "nocoefs", "extra"}}
            \cup {<<f, w>> : f \in 4..6, w \in {"nobeta", "nolevels", "nocoords", "noover", "moved", "extrafun"}}
            \cup {<<4, "extra">>}
Asked == {<<"HOMO", 0>>, <<"HOMO", -1>>, <<"LUMO", 0>>, <<"LUMO", 1>>, <<"HOMO", -9>>, <<"LUMO", 9>>}

Plain == [cp |-> FALSE, spin |-> <<"Alpha", "Alpha", "Alpha">>, beta |-> {1, 2, 3}, nopop |-> {},
          fault |-> NoFault, q |-> <<1, 2, 3>>, a1 |-> <<"HOMO", 0>>, a2 |-> <<"HOMO", 0>>]

(* One more difference *)
Vary(x) ==
  {[x EXCEPT !.cp = TRUE]}
  \cup {[x EXCEPT !.spin[i] = "Beta"] : i \in 1..3}
  \cup {[x EXCEPT !.beta = @ \ {i}] : i \in 1..3}
  \cup {[x EXCEPT !.nopop = @ \cup {i}] : i \in 1..3}
  \cup {[x EXCEPT !.fault = f] : f \in Faults}
  \cup {[x EXCEPT !.q = o] : o \in Orders3}
  \cup {[x EXCEPT !.a1 = a] : a \in Asked} \cup {[x EXCEPT !.a2 = a] : a \in Asked}
RECURSIVE Varied(_)
Varied(n) == IF n = 0 THEN {Plain} ELSE LET S == Varied(n - 1) IN S \cup UNION {Vary(x) : x \in S}

-----------------------------------------------------------------------------
(* The system: atoms 1, 2 of monomer 1 and atom 3 of monomer 2.            *)
W == <<1, 2, 1>>
Coef(x, i, j) == ((i * 71 + j * 53 + i * j * 37 + x * 29 + i * i * 13) % 199) - 99
Mono(x, rows, cols) == [i \in 1..rows |-> [j \in 1..cols |-> Coef(x, i, j)]]
Sab(i, j) == IF i = j THEN 1000 ELSE (((i + j) * 131 + i * j * 71) % 1999) - 999
Smat(n) == [i \in 1..n |-> [j \in 1..n |-> Sab(i, j)]]
Where(a) == <<a * 1000100, -a * 700000, ((a % 2) * 123456) - 5000049>>
Seed(i, s) == 10 * i + (IF s = "Beta" THEN 4 ELSE 0)
Homo(i, s) == IF s = "Beta" THEN 1 ELSE 2
Ener(i, s, k) == k * k * 311 - 4321 + Seed(i, s)

(* order of the atoms of file i, their places, functions, coefficients     *)
Rev(q) == <<q[3], q[2], q[1]>>
AtomsOf(i) == IF i = 1 THEN c.q ELSE IF ~c.cp THEN (IF i = 2 THEN <<1, 2>> ELSE <<3>>)
              ELSE IF i = 2 THEN <<1, 2, 3>> ELSE Rev(c.q)
Functions(i) == T!SumSeq([k \in DOMAIN AtomsOf(i) |-> W[AtomsOf(i)[k]]])
Shift(i) == IF ~c.cp /\ i = 3 THEN 3 ELSE 0
ColumnsIn(i) == LET cs == T!ColumnsOf(W, AtomsOf(i)) IN [k \in DOMAIN cs |-> cs[k]]
(* the coefficients of file i with its atoms in the order of the system    *)
Straight(i, s) == Mono(Seed(i, s), 4, IF i = 1 \/ c.cp THEN 4 ELSE IF i = 2 THEN 3 ELSE 1)
CoefsOf(i, s) == IF i = 1 \/ c.cp THEN T!TakeCols(Straight(i, s), ColumnsIn(i)) ELSE Straight(i, s)

Fault(f, w) == c.fault = <<f, w>>
AddCol(m) == [i \in DOMAIN m |-> Append(m[i], 7 * i)]
AddBoth(m) == LET n == Len(m) IN
  [i \in 1..(n + 1) |-> [j \in 1..(n + 1) |-> IF i <= n /\ j <= n THEN m[i][j] ELSE IF i = j THEN 1000 ELSE 5]]

PunOfRole(i) ==
  LET rows(s) == IF Fault(i, "nocoefs") \/ (s = "Beta" /\ (i \notin c.beta \/ Fault(i, "nobeta"))) THEN <<>>
                 ELSE IF Fault(i, "extra") THEN AddCol(CoefsOf(i, s)) ELSE CoefsOf(i, s) IN
  [k |-> "pun", fate |-> IF Fault(i, "cut") THEN "err" ELSE "ok",
   st |-> [N!Empty EXCEPT !.rows = [s \in {"Alpha", "Beta"} |-> rows(s)]]]

LogOfRole(i) ==
  LET f == i + 3
      has(s) == ~Fault(f, "nolevels") /\ (s = "Beta" => i \in c.beta /\ ~Fault(f, "nobeta"))
      levels(s) == IF ~has(s) THEN <<>>
                   ELSE <<[occ |-> [k \in 1..Homo(i, s) |-> Ener(i, s, k)],
                           virt |-> [k \in 1..(4 - Homo(i, s)) |-> Ener(i, s, Homo(i, s) + k)]]>>
      xyz == [k \in DOMAIN AtomsOf(i) |->
                IF k = 1 /\ Fault(f, "moved") THEN <<5, 5, 5>> ELSE Where(AtomsOf(i)[k])]
      s0 == IF i = 1 THEN T!TakeBoth(Smat(4), ColumnsIn(1)) ELSE Smat(2)
      s1 == IF Fault(f, "extra") THEN AddBoth(s0) ELSE s0
      funs(k) == [m \in 1..(W[AtomsOf(i)[k]] + (IF k = 1 /\ Fault(f, "extrafun") THEN 1 ELSE 0)) |-> m] IN
  [k |-> "log", fate |-> IF Fault(f, "cut") THEN "err" ELSE "ok",
   st |-> [L!Empty EXCEPT
             !.oe = [s \in {"Alpha", "Beta"} |-> levels(s)],
             !.xyz = IF Fault(f, "nocoords") THEN <<>> ELSE <<xyz>>,
             !.ov = IF Fault(f, "noover") THEN <<>> ELSE <<[n |-> Len(s1), v |-> s1]>>,
             !.ao = IF i \in c.nopop THEN <<>> ELSE <<[k \in DOMAIN AtomsOf(i) |-> [el |-> "C", funs |-> funs(k)]]>>]]

Par == [cp |-> c.cp, t1 |-> c.a1[1], k1 |-> c.a1[2], t2 |-> c.a2[1], k2 |-> c.a2[2]]
Whole == Compose([i \in 1..3 |-> PunOfRole(i)], [i \in 1..3 |-> LogOfRole(i)], c.spin, Par)
Gone == \E f \in 1..6 : Fault(f, "gone")

-----------------------------------------------------------------------------
Init ==
  /\ c \in Varied(MaxDev)
  /\ pc = "reading" /\ read = {} /\ cur = <<>> /\ warned = FALSE /\ result = <<>>

Stop(w) == pc' = w /\ UNCHANGED <<c, cur, warned, result>>

Read ==
  /\ pc = "reading"
  /\ \E f \in (1..6) \ read :
       /\ read' = read \cup {f}
       /\ IF Fault(f, "gone") \/ Fault(f, "cut") THEN Stop("refused")
          ELSE IF read' = 1..6 THEN Stop("read") ELSE Stop("reading")

LookUp ==
  /\ pc = "read" /\ UNCHANGED <<c, read, warned, result>>
  /\ IF Whole.k = "job" THEN pc' = "job" /\ cur' = Whole.job
     ELSE pc' = (IF Whole.k = "any" THEN "open" ELSE "refused") /\ cur' = cur

Construct ==
  /\ pc = "job" /\ UNCHANGED read
  /\ IF T!Consistent(cur) THEN Stop("consistent") ELSE Stop("refused")

LineUp ==
  /\ pc = "consistent" /\ UNCHANGED <<c, read, result>>
  /\ IF ~cur.un THEN pc' = "lined" /\ cur' = cur /\ warned' = TRUE
     ELSE IF T!CanLineUp(cur) THEN pc' = "lined" /\ cur' = T!LinedUp(cur) /\ UNCHANGED warned
     ELSE pc' = "refused" /\ UNCHANGED <<cur, warned>>

Choose ==
  /\ pc = "lined" /\ UNCHANGED read
  /\ IF T!Selected(cur) /\ T!CanProject(cur) THEN Stop("chosen") ELSE Stop("refused")

Show ==
  /\ pc = "chosen" /\ UNCHANGED <<c, read, cur, warned>>
  /\ pc' = "printed"
  /\ result' = <<T!Gamma(T!ZetaA(cur), cur.s, cur.p), T!Gamma(T!ZetaB(cur), cur.s, cur.p)>>

Next == Read \/ LookUp \/ Construct \/ LineUp \/ Choose \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* The order of reading does not matter. *)
Confluent ==
  /\ pc = "printed" => /\ ~Gone /\ Whole.k = "job"
                       /\ LET x == T!Expect(Whole.job) IN x.k = "ok" /\ result = <<x.a, x.b>>
                       /\ warned = ~Whole.job.un
  /\ pc = "refused" => Gone \/ Whole.k = "err" \/ (Whole.k = "job" /\ T!Expect(Whole.job).k = "err")

(* When a run is refused, said without the steps. *)
Unscrambles == c.nopop = {}
NeedsBeta(i) == c.spin[i] = "Beta"
Hopeless ==
  \/ c.fault[2] \in {"gone", "cut", "nocoefs", "nolevels", "extra"}
  \/ c.fault = <<4, "noover">>
  \/ c.fault[2] \in {"nocoords", "moved"} /\ Unscrambles
  \/ c.fault \in {<<4, "extrafun">>} /\ Unscrambles
  \/ c.fault = <<6, "extrafun">> /\ Unscrambles /\ c.cp
  \/ c.fault[2] = "nobeta" /\ NeedsBeta(IF c.fault[1] > 3 THEN c.fault[1] - 3 ELSE c.fault[1])
  \/ \E i \in 1..3 : NeedsBeta(i) /\ i \notin c.beta
  \/ \E k \in 1..2 : LET a == IF k = 1 THEN c.a1 ELSE c.a2
                         h == Homo(k + 1, c.spin[k + 1]) IN
       \/ a[1] = "HOMO" /\ h + a[2] < 1
       \/ a[1] = "LUMO" /\ h + 1 + a[2] > 4
Decision ==
  /\ pc = "printed" => ~Hopeless
  /\ pc = "refused" => Hopeless
  /\ pc = "open" => c.fault[2] = "nocoords" /\ ~Unscrambles

(* The numbers are those of the monomers' own spins, in the order of the   *)
(* system, whatever order the files are in.                                *)
OwnOrbitals ==
  pc = "printed" /\ (Unscrambles \/ (c.q = <<1, 2, 3>> /\ ~c.cp)) =>
    LET row(k) == LET a == IF k = 1 THEN c.a1 ELSE c.a2
                      h == Homo(k + 1, c.spin[k + 1]) IN
                  Straight(k + 1, c.spin[k + 1])[IF a[1] = "HOMO" THEN h + a[2] ELSE h + 1 + a[2]]
        za == IF c.cp THEN row(1) ELSE row(1) \o <<0>>
        zb == IF c.cp THEN row(2) ELSE <<0, 0, 0>> \o row(2)
        P == Straight(1, c.spin[1]) IN
    result = <<T!Gamma(za, Smat(4), P), T!Gamma(zb, Smat(4), P)>>

Ends == <>(pc \in {"printed", "refused", "open"})

Written == Varied(EmitDev)
RECURSIVE SetList(_)
SetList(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SetList(S \ {m})
Emit ==
  (read = {} /\ "EMIT" \in DOMAIN IOEnv /\ c \in Written)
    => CSVWrite("%1$s", <<ToJson([c EXCEPT !.beta = SetList(@), !.nopop = SetList(@)])>>, IOEnv.EMIT)
=============================================================================
