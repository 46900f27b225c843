------------------------------- MODULE TraceQC -------------------------------
(***************************************************************************)
(* Trace validation of the quantum chemistry part: matching and reordering *)
(* of atoms, transfer calculations, ranking of orbitals.                   *)
(***************************************************************************)
EXTENDS Transfer, Ranking, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          base      \* the system that the runs to follow describe

Is(op) == l <= Len(Trace) /\ Trace[l].op = op

Refusal == {"throw", "exit"}

Begin == Is("begin") /\ base' = <<>>

-----------------------------------------------------------------------------
(* C04 *)
Matching ==
  /\ Is("match")
  /\ LET e == Trace[l] IN
     /\ e.out = "ok"
     /\ IsMatching(e.xs, e.ys, e.d, e.res)
  /\ base' = base

(* C03, C04 *)
MatchOf(e) == e.a \o e.b
Reordering ==
  /\ Is("coef") \/ Is("overlap")
  /\ LET e == Trace[l] IN
     IF \/ ~Usable(MatchOf(e), Len(e.w))
        \/ ~SumsUp(e.w, e.m)
        \/ (e.op = "overlap" /\ Len(e.m) # Cols(e.m))
     THEN e.out \in Refusal
     ELSE /\ e.out = "ok"
          /\ Len(e.res) = Len(e.m)
          /\ \A i \in DOMAIN e.res : Len(e.res[i]) = Cols(e.m)
          /\ IF e.op = "coef" THEN IsUnscrambledCoef(e.res, e.m, e.w, MatchOf(e))
             ELSE IsUnscrambledS(e.res, e.m, e.w, MatchOf(e))
          /\ e.after = e.m
  /\ base' = base

-----------------------------------------------------------------------------
(* C01, C02, C05, C06 *)
Remember == /\ Is("system") /\ base' = Trace[l].job

IsScramble(j, b, q, q2) ==
  LET c == ColumnsOf(b.wp, q) IN
  /\ j.p = TakeCols(b.p, c) /\ j.s = TakeBoth(b.s, c)
  /\ j.wp = [i \in DOMAIN q |-> b.wp[q[i]]]
  /\ j.m1 = b.m1 /\ j.cp = b.cp /\ j.e = b.e
  /\ j.m2 = IF b.cp THEN TakeCols(b.m2, ColumnsOf(b.w2, q2)) ELSE b.m2

Outcome(e, x) ==
  IF x.k = "err"
  THEN e.out \in Refusal /\ ~e.printed
  ELSE IF Degenerate(x) THEN e.out \in Refusal \cup {"ok"}
  ELSE /\ e.out = "ok"
       /\ e.fin
       /\ Reports(x, e.r)

Run ==
  /\ Is("run")
  /\ LET e == Trace[l] IN
     IF e.q = <<>>
     THEN Outcome(e, Expect(e.job))
     ELSE \* a system in another order; the orbitals asked for may differ
          /\ Assert(IsScramble(e.job, base, e.q, e.q2), "not a reordering of the system")
          /\ Outcome(e, Expect([base EXCEPT !.un = FALSE, !.t1 = e.job.t1, !.k1 = e.job.k1,
                                            !.t2 = e.job.t2, !.k2 = e.job.k2]))
  /\ base' = base

-----------------------------------------------------------------------------
(* C23 *)
Rank ==
  /\ Is("rank")
  /\ LET e == Trace[l] IN
     /\ e.out = "ok"
     /\ IsRanking(e.alpha, e.beta, e.keys, e.ens, e.spins)
  /\ base' = base

Init == l = 1 /\ base = <<>>
(* Calls that tell nothing. *)
Quiet == Is("quiet") /\ Trace[l].out = "ok" /\ base' = base

Next == (Begin \/ Quiet \/ Matching \/ Reordering \/ Remember \/ Run \/ Rank) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, base>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
