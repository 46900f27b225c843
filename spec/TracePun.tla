------------------------------ MODULE TracePun ------------------------------
(***************************************************************************)
(* Trace validation of the reading of coefficient files (see TraceLog).    *)
(***************************************************************************)
EXTENDS PunFile, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, n

Is(op) == l <= Len(Trace) /\ Trace[l].op = op

Refusal == {"throw", "exit"}

Begin == Is("begin") /\ st' = Empty /\ n' = Trace[l].n
Line == Is("line") /\ st' = Step(st, Trace[l].line) /\ n' = n

EndOk(e) ==
  LET k == AtEnd(st, n) IN
  /\ Assert(k # "bad", <<"not a coefficient file", l>>)
  /\ IF k = "err" THEN e.out \in Refusal
     ELSE (e.out = "ok" /\ Shows(e, st)) \/ (e.out \in Refusal /\ (e.whole = 0 \/ k = "closing"))

CutOk(e) ==
  LET k == Cut(st, e.line, e.part, n) IN
  /\ Assert(st.mode # "bad", <<"not a coefficient file", l>>)
  /\ IF k = "err" THEN e.out \in Refusal
     ELSE \/ e.out \in Refusal
          \/ e.out = "ok" /\ Shows(e, IF k = "closing" THEN Step(st, e.line) ELSE st)

End == Is("end") /\ EndOk(Trace[l]) = TRUE /\ UNCHANGED <<st, n>>
CutOff == Is("cut") /\ CutOk(Trace[l]) = TRUE /\ UNCHANGED <<st, n>>

Init == l = 1 /\ st = Empty /\ n = 1
Next == (Begin \/ Line \/ End \/ CutOff) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st, n>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
