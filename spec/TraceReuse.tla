----------------------------- MODULE TraceReuse -----------------------------
(***************************************************************************)
(* Trace validation of readers that are used again (C28).  The contents of *)
(* a file are [kind, st, n, whole]: the kind of the file, the state of the *)
(* reading (LogFile, PunFile) after its last line, the number of functions *)
(* (for PunFile), and whether it was meant to end there.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

L == INSTANCE LogFile
P == INSTANCE PunFile

StatusOf(c) ==
  LET k == IF c.kind = "log" THEN L!AtEnd(c.st) ELSE P!AtEnd(c.st, c.n) IN
  CASE k = "err" -> "err" [] k = "closing" -> "may" [] OTHER -> IF c.whole = 1 THEN "ok" ELSE "may"

R == INSTANCE Reuse WITH Status <- StatusOf

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, file, of, kinds, holds

E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op
Refusal == {"throw", "exit"}

NoFiles == [f \in {1, 2} |-> <<>>]
Begin == Is("begin") /\ file' = NoFiles /\ of' = [m \in {1, 2} |-> m]
         /\ kinds' = [m \in {1, 2} |-> "none"] /\ holds' = R!Nothing

(* A new reader m of the file f. *)
Open == /\ Is("open") /\ E.out = "ok"
        /\ of' = [of EXCEPT ![E.m] = E.f] /\ kinds' = [kinds EXCEPT ![E.m] = E.kind]
        /\ holds' = [holds EXCEPT ![E.m] = [k |-> "fresh"]]
        /\ UNCHANGED file

Contents(e) ==
  LET st == IF e.kind = "log" THEN L!ReadAll(L!Empty, e.lines) ELSE P!ReadAll(P!Empty, e.lines) IN
  [kind |-> e.kind, st |-> st, n |-> e.n, whole |-> e.whole]
Put == /\ Is("put") /\ file' = [file EXCEPT ![E.f] = <<Contents(E)>>]
       /\ Assert(Contents(E).st.mode # "bad", <<"not a file of that kind", l>>)
       /\ UNCHANGED <<of, kinds, holds>>
Drop == Is("drop") /\ file' = [file EXCEPT ![E.f] = <<>>] /\ UNCHANGED <<of, kinds, holds>>

Shows(kind, obs, h) ==
  CASE kind = "none" \/ h.k = "any" -> TRUE
    [] h.k = "fresh" /\ kind = "log" -> L!Shows(obs, L!Empty, "")
    [] h.k = "fresh" /\ kind = "pun" -> P!RowsOk(obs.alpha, <<>>) /\ P!RowsOk(obs.beta, <<>>)
    [] kind = "log" -> IF h.only THEN L!Shows(obs, h.of.st, "") ELSE L!ShowsThose(obs, h.of.st)
    [] OTHER -> IF h.only THEN P!Shows(obs, h.of.st) ELSE P!ShowsThose(obs, h.of.st)

(* A reading, after which both readers tell what they hold. *)
Way(e) == IF e.out = "ok" THEN "ok" ELSE "refused"
ReadOk(e) ==
  LET f == file[of[e.m]]
      h == R!AfterRead(holds, e.m, f, Way(e)) IN
  /\ e.out \in {"ok"} \cup Refusal
  /\ Way(e) \in R!MayEnd(f)
  /\ e.out # "exit" => \A m \in {1, 2} : Shows(kinds[m], e.obs[m], h[m])
Read == /\ Is("read") /\ ReadOk(E) = TRUE
        /\ holds' = R!AfterRead(holds, E.m, file[of[E.m]], Way(E))
        /\ UNCHANGED <<file, of, kinds>>

Init == l = 1 /\ file = NoFiles /\ of = [m \in {1, 2} |-> m]
        /\ kinds = [m \in {1, 2} |-> "none"] /\ holds = R!Nothing
Next == (Begin \/ Open \/ Put \/ Drop \/ Read) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, file, of, kinds, holds>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
