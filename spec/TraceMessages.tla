--------------------------- MODULE TraceMessages ---------------------------
(***************************************************************************)
(* Trace validation of messages of the log (C31): statements of programs   *)
(* built with a level, and runs of calc_J built with several levels.       *)
(***************************************************************************)
EXTENDS Messages, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, built

Is(op) == l <= Len(Trace) /\ Trace[l].op = op
E == Trace[l]

Begin == Is("begin") /\ built' = E.level

SaysOk(e) ==
  /\ e.out = "ok"
  /\ e.said = Glued(Texts(Says(built, e, e.file \o ":" \o ToString(e.line))))
Statement == (Is("print") \/ Is("say") \/ Is("branch")) /\ SaysOk(E) = TRUE /\ UNCHANGED built

(* The same command line, with levels in ascending order. *)
RunsOk(e) ==
  \A i \in 1..Len(e.runs) - 1 :
    /\ e.runs[i].level < e.runs[i + 1].level
    /\ AsAtOther(e.runs[i], e.runs[i + 1])
Runs == Is("runs") /\ RunsOk(E) = TRUE /\ UNCHANGED built

Init == l = 1 /\ built = 0
Next == (Begin \/ Statement \/ Runs) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, built>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
