------------------------------ MODULE TraceLog ------------------------------
(***************************************************************************)
(* Trace validation of the reading of log files.  A trace goes through a   *)
(* file line by line; after any line it may tell what became of reading a  *)
(* file that ends there (end), or that ends within the next line (cut).    *)
(***************************************************************************)
EXTENDS LogFile, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st

Is(op) == l <= Len(Trace) /\ Trace[l].op = op

Refusal == {"throw", "exit"}

Begin == Is("begin") /\ st' = Empty
Line == Is("line") /\ st' = Step(st, Trace[l].line)

(* The file ends here.  whole: it was meant to. *)
EndOk(e) ==
  LET k == AtEnd(st) IN
  /\ Assert(k # "bad", <<"not a log file", l>>)
  /\ IF k = "err" THEN e.out \in Refusal
     ELSE (e.out = "ok" /\ Shows(e, st, "")) \/ (e.out \in Refusal /\ e.whole = 0)

CutOk(e) ==
  LET k == Cut(st, e.line, e.part) IN
  /\ Assert(st.mode # "bad", <<"not a log file", l>>)
  /\ IF k = "err" THEN e.out \in Refusal
     ELSE \/ e.out \in Refusal
          \/ /\ e.out = "ok"
             /\ IF k = "closing" THEN Shows(e, Step(st, e.line), "")
                ELSE Shows(e, st, IF e.line.k = "en" THEN e.line.spin ELSE "")

End == Is("end") /\ EndOk(Trace[l]) = TRUE /\ UNCHANGED st
CutOff == Is("cut") /\ CutOk(Trace[l]) = TRUE /\ UNCHANGED st

Init == l = 1 /\ st = Empty
Next == (Begin \/ Line \/ End \/ CutOff) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
