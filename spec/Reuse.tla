------------------------------- MODULE Reuse -------------------------------
(***************************************************************************)
(* Two readers that are used again and again while their files change.     *)
(* A file is <<>> (not there) or <<contents>>; Status(contents) is "ok",   *)
(* "err" (it ends within a table), or "may" (it may be read or refused).   *)
(* What a reader holds is "fresh" (nothing, it has not read yet), "any"    *)
(* (nothing is known after a refused reading), or what it read last, with  *)
(* the information whether that is all it ever read.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Status(_)

Readers == {1, 2}
Nothing == [m \in Readers |-> [k |-> "fresh"]]

MayEnd(file) ==        \* how reading it may end
  IF file = <<>> THEN {"refused"}
  ELSE CASE Status(file[1]) = "ok" -> {"ok"}
         [] Status(file[1]) = "err" -> {"refused"}
         [] Status(file[1]) = "may" -> {"ok", "refused"}

(* The readers after m has read the file, with that end. *)
AfterRead(holds, m, file, how) ==
  [holds EXCEPT ![m] =
     IF how = "refused" THEN [k |-> "any"]
     ELSE [k |-> "read", of |-> file[1], only |-> holds[m].k = "fresh"]]
=============================================================================
