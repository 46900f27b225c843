------------------------------- MODULE CalcJ -------------------------------
(***************************************************************************)
(* The program as a whole: a command line and six files make a transfer    *)
(* calculation.  data maps the places of files to what they contain:       *)
(*   k     "log", "pun"                                                    *)
(*   fate  "ok", "err" (it ends within a table), "any" (not specified)     *)
(*   st    the state of the reader at its end (LogFile, PunFile)           *)
(* Values are integers, the run tells their units.                         *)
(***************************************************************************)
EXTENDS CalcJArgs

T == INSTANCE Transfer WITH Base <- 10000
L == INSTANCE LogFile
N == INSTANCE PunFile

FateOf(a) == CASE a = "ok" -> "ok" [] a = "err" -> "err" [] OTHER -> "any"

(* cut is <<>> or <<[line, part]>>: the file ends within that line.        *)
LogData(lines, cut) ==
  LET st == L!ReadAll(L!Empty, lines) IN
  [k |-> "log", st |-> st,
   fate |-> FateOf(IF cut = <<>> THEN L!AtEnd(st) ELSE L!Cut(st, cut[1].line, cut[1].part))]
PunData(lines, cut, n) ==
  LET st == N!ReadAll(N!Empty, lines) IN
  [k |-> "pun", st |-> st,
   fate |-> FateOf(IF cut = <<>> THEN N!AtEnd(st, n) ELSE N!Cut(st, cut[1].line, cut[1].part, n))]

-----------------------------------------------------------------------------
(* What is used of a file: <<>> or <<value>>.                              *)
Levels(d, spin) ==
  IF d.k # "log" \/ d.st.oe[spin] = <<>> THEN <<>>
  ELSE LET t == d.st.oe[spin][1] IN <<[e |-> t.occ \o t.virt, homo |-> Len(t.occ)]>>
Places(d) == IF d.k # "log" THEN <<>> ELSE d.st.xyz
Overlaps(d) == IF d.k # "log" \/ d.st.ov = <<>> THEN <<>> ELSE <<d.st.ov[1].v>>
(* numbers of basis functions of the atoms; <<>> when they are not known *)
Counts(d) == IF d.k # "log" \/ d.st.ao = <<>> THEN <<>>
             ELSE [a \in DOMAIN d.st.ao[1] |-> Len(d.st.ao[1][a].funs)]
Coefs(d, spin) == IF d.k # "pun" \/ d.st.rows[spin] = <<>> THEN <<>> ELSE <<d.st.rows[spin]>>

Refused == [k |-> "err"]
Open == [k |-> "any"]

(* Numbers of orbitals beyond the size of any file are all the same. *)
SmallNumber(x) ==
  IF x.s = 0 THEN 0
  ELSE IF x.p > 5 THEN x.s * 1000000
  ELSE LET RECURSIVE v(_)
           v(i) == IF i > x.p THEN 0
                   ELSE (IF i <= Len(x.d) THEN x.d[i] ELSE 0) * T!Pow10(x.p - i) + v(i + 1)
       IN x.s * v(1)

(* The calculation that the six files (in the order P 1 2) and the         *)
(* parameters make.                                                        *)
Compose(pun, log, spin, par) ==
  LET eP == Levels(log[1], spin[1])
      l1 == Levels(log[2], spin[2])
      l2 == Levels(log[3], spin[3])
      cP == Coefs(pun[1], spin[1])
      c1 == Coefs(pun[2], spin[2])
      c2 == Coefs(pun[3], spin[3])
      S == Overlaps(log[1])
      w == [i \in 1..3 |-> Counts(log[i])]
      un == \A i \in 1..3 : w[i] # <<>>
      x == [i \in 1..3 |-> Places(log[i])]
      fates == {pun[i].fate : i \in 1..3} \cup {log[i].fate : i \in 1..3} IN
  IF "err" \in fates THEN Refused
  ELSE IF "any" \in fates THEN Open
  ELSE IF <<>> \in {eP, l1, l2, cP, c1, c2, S} THEN Refused
  ELSE IF \E i \in 1..3 : x[i] = <<>> THEN (IF un THEN Refused ELSE Open)
  ELSE [k |-> "job",
        job |-> [cp |-> par.cp, m1 |-> c1[1], m2 |-> c2[1], p |-> cP[1], s |-> S[1], e |-> eP[1].e,
                 n1 |-> Len(l1[1].e), h1 |-> l1[1].homo, n2 |-> Len(l2[1].e), h2 |-> l2[1].homo,
                 t1 |-> par.t1, k1 |-> par.k1, t2 |-> par.t2, k2 |-> par.k2,
                 un |-> un, x1 |-> x[2][1], x2 |-> x[3][1], xp |-> x[1][1],
                 wp |-> w[1], w2 |-> w[3]]]

(* The calculation of an accepted command line. *)
ComposeLine(fs, data, P) ==
  LET at(p) == data[Resolve(fs, p)[1]] IN
  Compose([i \in 1..3 |-> at(PunOf(fs, P, Order[i])[1])],
          [i \in 1..3 |-> at(LogOf(fs, P, Order[i])[1])],
          [i \in 1..3 |-> ValueOf(P, "--spin_" \o Order[i])],
          [cp |-> ValueOf(P, "--counter_poise") \in SwitchOn,
           t1 |-> ValueOf(P, "--orbital_type_1"), k1 |-> SmallNumber(Number(P, "1")),
           t2 |-> ValueOf(P, "--orbital_type_2"), k2 |-> SmallNumber(Number(P, "2"))])

-----------------------------------------------------------------------------
(* What a run does: out is "ok" (exit 0), "exit" or "throw" (refused) or   *)
(* anything else; jeff: it printed a J_eff; warned; the numbers r, if fin; *)
(* and the names, spins and orbitals it reports.                           *)
Denied(e) == e.out \in {"throw", "exit"} /\ ~e.jeff

Reported(fs, P, e) ==
  /\ \A i \in 1..3 : /\ SameFile(fs, e.files[i], PunOf(fs, P, Order[i])[1])
                     /\ SameFile(fs, e.files[3 + i], LogOf(fs, P, Order[i])[1])
                     /\ e.spins[i] = ValueOf(P, "--spin_" \o Order[i])
  /\ \A i \in 1..2 : /\ e.types[i] = ValueOf(P, "--orbital_type_" \o Order[i + 1])
                     /\ IntWord(e.nums[i]) = <<Number(P, Order[i + 1])>>

Calculates(job, e) ==
  LET x == T!Expect(job) IN
  IF x.k = "err" THEN Denied(e)
  ELSE IF T!Degenerate(x) THEN e.out = "ok" \/ e.out \in {"throw", "exit"}
  ELSE e.out = "ok" /\ e.fin /\ T!Prints(x, e.r)

ProgramOk(fs, data, e) ==
  LET r == Parse(fs, CalcJParser, e.args) IN
  CASE r.out = "no" -> Denied(e)
    [] r.out = "exit0" -> e.out = "ok" /\ ~e.jeff
    [] r.out = "ok" ->
         IF ~Runs(fs, r.P) THEN Denied(e)
         ELSE LET c == ComposeLine(fs, data, r.P) IN
              CASE c.k = "err" -> Denied(e)
                [] c.k = "any" -> e.out = "ok" \/ e.out \in {"throw", "exit"}
                [] c.k = "job" -> /\ Calculates([n \in DOMAIN c.job \cup {"u"} |->
                                                  IF n = "u" THEN e.u ELSE c.job[n]], e)
                                  /\ e.out = "ok" => Reported(fs, r.P, e) /\ (e.warned <=> ~c.job.un)
=============================================================================
