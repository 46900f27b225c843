------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The parameters of a run: what is set is kept until it is set again; a   *)
(* file name of the wrong type is refused and changes nothing.  All values *)
(* are words.  And the readers of files: a reader is made for a name with  *)
(* the extension of its type, and reads if there is such a file.           *)
(***************************************************************************)
EXTENDS Text

Slots == {"P", "1", "2"}
LogFields == {"log" \o s : s \in Slots}
PunFields == {"pun" \o s : s \in Slots}
SpinFields == {"spin" \o s : s \in Slots}
TypeFields == {"type" \o s : s \in Slots}
NumFields == {"num" \o s : s \in Slots}
FlagFields == {"cp", "cite"}
Fields == LogFields \cup PunFields \cup SpinFields \cup TypeFields \cup NumFields \cup FlagFields

LogExts == {".log"}
PunExts3 == {".pun", ".7", ".orb"}

Fresh == [f \in Fields |-> IF f \in NumFields \cup FlagFields THEN "0" ELSE ""]

Takes(f, w) ==
  CASE f \in LogFields -> ExtOf(w) \in LogExts
    [] f \in PunFields -> ExtOf(w) \in PunExts3
    [] OTHER -> TRUE

(* The slots after a call c on them, or <<>> when it is refused. *)
After(ps, c) ==
  CASE c.op = "pnew" -> <<[ps EXCEPT ![c.m] = Fresh]>>
    [] c.op = "pcopy" -> <<[ps EXCEPT ![c.m] = ps[c.n]]>>
    [] c.op = "pset" -> IF Takes(c.f, c.w) THEN <<[ps EXCEPT ![c.m][c.f] = c.w]>> ELSE <<>>

-----------------------------------------------------------------------------
(* Readers *)
ExtsOf(kind) == IF kind = "log" THEN LogExts ELSE PunExts3
(* A reader of the kind "any" is not of a type. *)
MayRead(kind, name) == kind = "any" \/ ExtOf(name) \in ExtsOf(kind)
TellsExt(kind, name) == ExtOf(name) # ""
=============================================================================
