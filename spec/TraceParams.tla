----------------------------- MODULE TraceParams -----------------------------
(***************************************************************************)
(* Trace validation of the parameters of a run (two sets of them, observed *)
(* after every call) and of the readers of files.                          *)
(***************************************************************************)
EXTENDS Params, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ps, fs, rd

Is(op) == l <= Len(Trace) /\ Trace[l].op = op
E == Trace[l]
Refusal == {"throw", "exit"}

NoFiles == [dirs |-> {<<>>, <<"up">>, Here}, files |-> {}]
NoReader == [kind |-> "none", name |-> ""]
Init == l = 1 /\ ps = [m \in {1, 2} |-> Fresh] /\ fs = NoFiles /\ rd = NoReader

Begin == Is("begin") /\ ps' = [m \in {1, 2} |-> Fresh] /\ fs' = NoFiles /\ rd' = NoReader

(* Parameters *)
Shows(e, q) == \A m \in {1, 2} : \A f \in Fields : e.obs[m][f] = q[m][f]
CallOk(e) ==
  LET a == After(ps, e) IN
  IF a = <<>> THEN e.out \in Refusal /\ (e.out = "throw" => Shows(e, ps))
  ELSE e.out = "ok" /\ Shows(e, a[1])
Call ==
  /\ l <= Len(Trace) /\ E.op \in {"pnew", "pset", "pcopy"}
  /\ CallOk(E) = TRUE
  /\ ps' = LET a == After(ps, E) IN IF a = <<>> THEN ps ELSE a[1]
  /\ UNCHANGED <<fs, rd>>

(* Files and readers *)
Place(p) == Resolve(fs, p)[1]
Dir == Is("dir") /\ fs' = [fs EXCEPT !.dirs = @ \cup {Place(E.path)}] /\ UNCHANGED <<ps, rd>>
File == Is("file") /\ fs' = [fs EXCEPT !.files = @ \cup {Place(E.path)}] /\ UNCHANGED <<ps, rd>>
Unlink == Is("unlink") /\ fs' = [fs EXCEPT !.files = @ \ {Place(E.path)}] /\ UNCHANGED <<ps, rd>>

Reader ==
  /\ Is("reader")
  /\ (E.out \in (IF MayRead(E.kind, E.name) THEN {"ok"} ELSE Refusal)) = TRUE
  /\ rd' = IF MayRead(E.kind, E.name) THEN [kind |-> E.kind, name |-> E.name] ELSE NoReader
  /\ UNCHANGED <<ps, fs>>

Ext ==
  /\ Is("ext")
  /\ (rd.kind # "none" =>
        IF TellsExt(rd.kind, rd.name) THEN E.out = "ok" /\ E.val = ExtOf(rd.name)
        ELSE E.out \in Refusal) = TRUE
  /\ UNCHANGED <<ps, fs, rd>>

Read ==
  /\ Is("read")
  /\ (rd.kind # "none" => E.out \in (IF Exists(fs, rd.name) THEN {"ok"} ELSE Refusal)) = TRUE
  /\ UNCHANGED <<ps, fs, rd>>

Next == (Begin \/ Call \/ Dir \/ File \/ Unlink \/ Reader \/ Ext \/ Read) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, ps, fs, rd>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
