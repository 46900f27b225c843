------------------------------ MODULE MCReuse ------------------------------
(***************************************************************************)
(* All histories of two readers, of one file or of two.  A reader is made  *)
(* of tables here: reading fills in the tables of the file, one after the  *)
(* other, and leaves the others as they were.  Reuse says what of that can *)
(* be relied on.                                                           *)
(***************************************************************************)
EXTENDS Reuse, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, Same

VARIABLES file, holds, tables, hist
vars == <<file, holds, tables, hist>>

(* Contents: 1, 2 whole files, 3 a file that ends within its second table. *)
Has(c) == CASE c = 1 -> {"a", "b"} [] c = 2 -> {"b", "c"} [] c = 3 -> {"a"}
StatusOf(c) == IF c = 3 THEN "err" ELSE "ok"
FileOf(m) == IF Same THEN 1 ELSE m

Init ==
  /\ file = [f \in {1, 2} |-> <<>>]
  /\ holds = Nothing
  /\ tables = [m \in Readers |-> [t \in {"a", "b", "c"} |-> 0]]
  /\ hist = <<>>

Do(e) == hist' = Append(hist, e)
Put(f, c) == /\ file[f] # <<c>> /\ (Same => f = 1)
             /\ file' = [file EXCEPT ![f] = <<c>>] /\ Do([k |-> "put", f |-> f, c |-> c])
             /\ UNCHANGED <<holds, tables>>
Drop(f) == /\ file[f] # <<>>
           /\ file' = [file EXCEPT ![f] = <<>>] /\ Do([k |-> "drop", f |-> f, c |-> 0])
           /\ UNCHANGED <<holds, tables>>
Read(m) ==
  LET x == file[FileOf(m)] IN
  /\ Do([k |-> "read", f |-> m, c |-> 0])
  /\ tables' = IF x = <<>> THEN tables
               ELSE [tables EXCEPT ![m] = [t \in {"a", "b", "c"} |-> IF t \in Has(x[1]) THEN x[1] ELSE @[t]]]
  /\ \E how \in MayEnd(x) : holds' = AfterRead(holds, m, x, how)
  /\ UNCHANGED file

Next == /\ Len(hist) < MaxLen
        /\ \/ \E f \in {1, 2} : Drop(f) \/ \E c \in 1..3 : Put(f, c)
           \/ \E m \in Readers : Read(m)
Spec == Init /\ [][Next]_vars

(* What is relied on is the case. *)
Holds ==
  \A m \in Readers :
    CASE holds[m].k = "fresh" -> \A t \in {"a", "b", "c"} : tables[m][t] = 0
      [] holds[m].k = "any" -> TRUE
      [] OTHER -> /\ \A t \in Has(holds[m].of) : tables[m][t] = holds[m].of
                  /\ holds[m].only => \A t \in {"a", "b", "c"} \ Has(holds[m].of) : tables[m][t] = 0

(* A complete file can be read whatever was before. *)
Readable == \A c \in {1, 2} : MayEnd(<<c>>) = {"ok"}
Missing == MayEnd(<<>>) = {"refused"} /\ MayEnd(<<3>>) = {"refused"}

Reads == Cardinality({i \in DOMAIN hist : hist[i].k = "read"})
Emit == "EMIT" \in DOMAIN IOEnv /\ Len(hist) = MaxLen /\ hist[MaxLen].k = "read" /\ Reads >= 2 =>
          CSVWrite("%1$s", <<ToJson([same |-> Same, hist |-> hist])>>, IOEnv.EMIT)
=============================================================================
