--------------------------- MODULE TraceComplexes ---------------------------
(***************************************************************************)
(* Trace validation of several transfer calculations at a time (C29).      *)
(***************************************************************************)
EXTENDS Complexes, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, store, slots

E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op
Refusal == {"throw", "exit"}

Begin == Is("begin") /\ store' = <<>> /\ slots' = [s \in 1..4 |-> NoComplex]

Keep == Is("keep") /\ E.out = "ok" /\ store' = Append(store, E.m) /\ slots' = slots

Make ==
  /\ Is("make")
  /\ LET now == AfterMake(store, E.a) IN
     /\ IF now = NoComplex THEN E.out \in Refusal ELSE E.out = "ok"
     /\ slots' = [slots EXCEPT ![E.s] = now]
  /\ store' = store

(* Nothing is done with a complex that is not there. *)
There(s) == slots[s] # NoComplex
Skipped == E.out = "skip"

Copy ==
  /\ Is("copy")
  /\ IF There(E.s) THEN E.out = "ok" ELSE Skipped
  /\ slots' = [slots EXCEPT ![E.to] = slots[E.s]]
  /\ store' = store

Drop == Is("drop") /\ E.out = "ok" /\ slots' = [slots EXCEPT ![E.s] = NoComplex] /\ store' = store

LineUp ==
  /\ Is("line")
  /\ IF ~There(E.s) THEN Skipped /\ slots' = slots
     ELSE LET now == AfterLineUp(slots[E.s], E.g) IN
          /\ IF now = NoComplex THEN E.out \in Refusal ELSE E.out = "ok"
          /\ slots' = [slots EXCEPT ![E.s] = now]
  /\ store' = store

Outcome(x) ==
  IF x.k = "err" THEN E.out \in Refusal /\ ~E.printed
  ELSE IF Degenerate(x) THEN E.out \in Refusal \cup {"ok"}
  ELSE E.out = "ok" /\ E.fin /\ Reports(x, E.r)

Ask ==
  /\ Is("ask")
  /\ IF There(E.s) THEN Outcome(Answer(slots[E.s], E.q)) = TRUE ELSE Skipped
  /\ UNCHANGED <<store, slots>>

(* The matrices are those that were given. *)
Look ==
  /\ Is("look") /\ E.out = "ok" /\ E.whole /\ E.store = store
  /\ UNCHANGED <<store, slots>>

Init == l = 1 /\ store = <<>> /\ slots = <<>>
Next == (Begin \/ Keep \/ Make \/ Copy \/ Drop \/ LineUp \/ Ask \/ Look) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, store, slots>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
