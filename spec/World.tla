------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* Runs of a program among files (C30).  The user writes and removes       *)
(* files, and starts and ends runs, several at a time.  While a run goes   *)
(* on the user leaves the files alone, and runs never change them; so what *)
(* a run shows depends on its command and on the files of that time only.  *)
(*                                                                         *)
(* files maps names to contents; going maps runs to their commands.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoFiles == [f \in {} |-> 0]
Idle == <<>>

Written(files, f, c) == [g \in DOMAIN files \cup {f} |-> IF g = f THEN c ELSE files[g]]
Removed(files, f) == [g \in DOMAIN files \ {f} |-> files[g]]

MayEdit(going) == \A r \in DOMAIN going : going[r] = Idle
Started(going, r, cmd) == [going EXCEPT ![r] = <<cmd>>]
Ended(going, r) == [going EXCEPT ![r] = Idle]
=============================================================================
