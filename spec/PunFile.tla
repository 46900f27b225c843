------------------------------- MODULE PunFile -------------------------------
(***************************************************************************)
(* Reading a coefficient file, line by line.  Lines are records:           *)
(*   text                                                                  *)
(*   mo    i, spin       start of orbital i                                *)
(*   coef  vals          coefficients, five to a line                      *)
(* n is the number of basis functions.  Values are not interpreted.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Spins == {"Alpha", "Beta"}

Empty == [mode |-> "text", spin |-> "Alpha", rows |-> [s \in Spins |-> <<>>]]

Bad(st) == [st EXCEPT !.mode = "bad"]

Step(st, ln) ==
  CASE st.mode = "bad" -> st
    [] ln.k = "mo" ->
         IF ln.i # Len(st.rows[ln.spin]) + 1 THEN Bad(st)
         ELSE [st EXCEPT !.mode = "orbital", !.spin = ln.spin, !.rows[ln.spin] = Append(@, <<>>)]
    [] ln.k = "coef" /\ st.mode = "orbital" ->
         [st EXCEPT !.rows[st.spin][Len(st.rows[st.spin])] = @ \o ln.vals]
    [] ln.k = "text" -> [st EXCEPT !.mode = "text"]
    [] OTHER -> Bad(st)

RECURSIVE ReadAll(_, _)
ReadAll(st, lines) == IF lines = <<>> THEN st ELSE ReadAll(Step(st, Head(lines)), Tail(lines))

LastRow(st) == st.rows[st.spin][Len(st.rows[st.spin])]

(* With a single orbital nothing in the file tells how many coefficients   *)
(* it has, unless something follows; files like that may be refused.       *)
Lonely(st, n) == st.mode = "orbital" /\ Len(st.rows[st.spin]) = 1 /\ n > 1

AtEnd(st, n) ==
  IF st.mode = "bad" THEN "bad"
  ELSE IF st.mode = "text" THEN "ok"
  ELSE IF Len(LastRow(st)) < n THEN "err"
  ELSE IF Lonely(st, n) THEN "closing" ELSE "ok"

(* The file is cut within line ln (see LogFile). *)
Cut(st, ln, part, n) ==
  IF st.mode # "orbital" \/ Len(LastRow(st)) = n THEN "any"
  ELSE IF part = "data" /\ Len(LastRow(st)) + Len(ln.vals) = n THEN "closing"
  ELSE "err"
-----------------------------------------------------------------------------
(* What a reader tells. *)
RowsOk(got, rows) == IF rows = <<>> THEN got = <<>> ELSE Len(got) = 1 /\ got[1] = rows

Shows(e, x) ==
  /\ RowsOk(e.alpha, x.rows["Alpha"])
  /\ RowsOk(e.beta, x.rows["Beta"])
  /\ e.restricted = (IF Cardinality({s \in Spins : x.rows[s] # <<>>}) = 1 THEN 1 ELSE 0)

ShowsThose(e, x) ==
  /\ x.rows["Alpha"] # <<>> => RowsOk(e.alpha, x.rows["Alpha"])
  /\ x.rows["Beta"] # <<>> => RowsOk(e.beta, x.rows["Beta"])
=============================================================================
