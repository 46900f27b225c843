---------------------------- MODULE TraceSections ----------------------------
(***************************************************************************)
(* Trace validation of readers of sections (C33).                          *)
(***************************************************************************)
EXTENDS Sections, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, files, made

Is(op) == l <= Len(Trace) /\ Trace[l].op = op
E == Trace[l]
Refusal == {"throw", "exit"}

NoFiles == [f \in {"1", "2"} |-> <<>>]
NoReaders == [m \in 1..2 |-> <<>>]
Begin == Is("begin") /\ files' = NoFiles /\ made' = NoReaders

(* A file, or that it is gone (E.is = 0). *)
File == Is("file") /\ files' = [files EXCEPT ![E.f] = IF E.is = 0 THEN <<>> ELSE <<E.lines>>] /\ UNCHANGED made

MadeOk(e) == IF Complete(e.reg) THEN e.out = "ok" ELSE e.out \in Refusal
Make == /\ Is("make") /\ MadeOk(E) = TRUE
        /\ made' = [made EXCEPT ![E.m] = IF E.out = "ok" THEN <<[f |-> E.f, reg |-> E.reg, does |-> E.does]>> ELSE <<>>]
        /\ UNCHANGED files

Ends(out) == CASE out = "ok" -> "whole" [] out = "throw" -> "given up" [] OTHER -> out
ReadOk(e) ==
  LET x == made[e.m][1]
      f == files[x.f] IN
  IF f = <<>> THEN e.out \in Refusal /\ e.calls = <<>>
  ELSE Reading(x.reg, x.does, f[1], 1, e.calls, Ends(e.out))
Read == Is("read") /\ ReadOk(E) = TRUE /\ UNCHANGED <<files, made>>

Init == l = 1 /\ files = NoFiles /\ made = NoReaders
Next == (Begin \/ File \/ Make \/ Read) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, files, made>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
