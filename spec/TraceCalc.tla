------------------------------ MODULE TraceCalc ------------------------------
(***************************************************************************)
(* Trace validation of whole runs of calc_J (C07), also of several at a    *)
(* time among files that the user writes and removes in between (C30).     *)
(***************************************************************************)
EXTENDS CalcJ, Json, IOUtils

W == INSTANCE World

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, data,
          marks,      \* what the files are, to the byte
          going       \* runs that have not ended

Is(op) == l <= Len(Trace) /\ Trace[l].op = op
E == Trace[l]

NoFiles == [dirs |-> {<<>>, <<"up">>, Here}, files |-> {}]
Place(p) == Resolve(fs, p)[1]

Slots == 1..4
Begin == Is("begin") /\ fs' = NoFiles /\ data' = <<>> /\ marks' = W!NoFiles
         /\ going' = [r \in Slots |-> W!Idle]
Dir == Is("dir") /\ fs' = [fs EXCEPT !.dirs = @ \cup {Place(E.path)}] /\ UNCHANGED <<data, marks, going>>

Contents(e) ==
  CASE e.kind = "log" -> LogData(e.lines, e.cut)
    [] e.kind = "pun" -> PunData(e.lines, e.cut, e.n)
Write ==
  /\ Is("file") /\ W!MayEdit(going)
  /\ fs' = [fs EXCEPT !.files = @ \cup {Place(E.path)}]
  /\ data' = W!Written(data, Place(E.path), Contents(E))
  /\ marks' = W!Written(marks, Place(E.path), E.mark)
  /\ UNCHANGED going
Remove ==
  /\ Is("remove") /\ W!MayEdit(going)
  /\ fs' = [fs EXCEPT !.files = @ \ {Place(E.path)}]
  /\ data' = W!Removed(data, Place(E.path))
  /\ marks' = W!Removed(marks, Place(E.path))
  /\ UNCHANGED going

Run == Is("run") /\ ProgramOk(fs, data, E) = TRUE /\ UNCHANGED <<fs, data, marks, going>>

(* A run that goes on while others do *)
Launch == Is("start") /\ going' = W!Started(going, E.slot, E.args) /\ UNCHANGED <<fs, data, marks>>
End ==
  /\ Is("end") /\ going[E.slot] = <<E.args>>
  /\ ProgramOk(fs, data, E) = TRUE
  /\ going' = W!Ended(going, E.slot)
  /\ UNCHANGED <<fs, data, marks>>

(* Nothing but the user changes files: those that are there.               *)
ToSet(s) == {s[i] : i \in DOMAIN s}
Look ==
  /\ Is("look")
  /\ ToSet(E.dirs) = fs.dirs
  /\ {f.at : f \in ToSet(E.files)} = fs.files
  /\ \A f \in ToSet(E.files) : marks[f.at] = f.mark
  /\ UNCHANGED <<fs, data, marks, going>>

vars == <<l, fs, data, marks, going>>
Init == l = 1 /\ fs = NoFiles /\ data = <<>> /\ marks = W!NoFiles /\ going = <<>>
Next == (Begin \/ Dir \/ Write \/ Remove \/ Run \/ Launch \/ End \/ Look) /\ l' = l + 1
Spec == Init /\ [][Next]_vars

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
