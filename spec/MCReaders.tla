------------------------------ MODULE MCReaders ------------------------------
(***************************************************************************)
(* A reader is made for a name built from parts, the file is there or not, *)
(* appears and disappears, and is read: a reader never holds a name of     *)
(* another type, and what is read is there.                                *)
(***************************************************************************)
EXTENDS Params, TLC, Json, CSV, IOUtils

CONSTANTS Dirs, Stems, Exts, MaxLen

VARIABLES kind, name, there, made, ok, hist
vars == <<kind, name, there, made, ok, hist>>

Init ==
  /\ kind \in {"log", "pun", "any"}
  /\ \E d \in Dirs, s \in Stems, x \in Exts : name = d \o s \o x
  /\ there \in BOOLEAN
  /\ made = FALSE /\ ok = FALSE
  /\ hist = <<IF there THEN "file" ELSE "none">>

Do(w) == hist' = Append(hist, w) /\ UNCHANGED <<kind, name>>
Make == ~made /\ Do("make") /\ made' = MayRead(kind, name) /\ ok' = FALSE /\ UNCHANGED there
Read == made /\ Do("read") /\ ok' = there /\ UNCHANGED <<made, there>>
Toggle == Do("toggle") /\ there' = ~there /\ ok' = FALSE /\ UNCHANGED made
Next == Len(hist) < MaxLen /\ (Make \/ Read \/ Toggle)
Spec == Init /\ [][Next]_vars

EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
(* In terms of the end of the name. *)
OfType == made /\ kind # "any" => \E x \in ExtsOf(kind) : EndsWith(name, x)
Every == (kind = "any" \/ \E x \in ExtsOf(kind) : EndsWith(name, x)) => MayRead(kind, name)
(* What is told ends the name and begins with its last dot. *)
Told ==
  made => LET x == ExtOf(name) IN
          /\ EndsWith(name, x)
          /\ x # "" => SubSeq(x, 1, 1) = "." /\ Slashes(x) = {} /\ Dots(x) = {1}
          /\ kind # "any" => TellsExt(kind, name)
IsThere == ok => there /\ made

Emit ==
  (Len(hist) = MaxLen /\ "EMIT" \in DOMAIN IOEnv)
     => CSVWrite("%1$s", <<ToJson([kind |-> kind, name |-> name, hist |-> hist])>>, IOEnv.EMIT)
=============================================================================
