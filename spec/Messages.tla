------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* Messages of the log (C31).  A program is built with a level; a message  *)
(* of a level up to that is one line on the standard output that begins    *)
(* with the place of the statement, all others are not printed.  Apart     *)
(* from the messages a program does the same at every level.               *)
(*                                                                         *)
(* An output is a sequence of pieces [msg, text].                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE Glued(_)
Glued(s) == IF s = <<>> THEN "" ELSE Head(s) \o Glued(Tail(s))

Shown(built, level) == level <= built

Line(at, text) == at \o ": " \o text \o "\n"

(* What a statement adds to the output of a program built with a level.    *)
(*   print:  text                                                          *)
(*   say:    messages (sequences of pieces) of a level                     *)
(*   branch: a message if a condition holds, else a text                   *)
Piece(m, t) == <<[msg |-> m, text |-> t]>>
RECURSIVE Said(_, _)
Said(at, ms) == IF ms = <<>> THEN <<>> ELSE Piece(TRUE, Line(at, Glued(Head(ms)))) \o Said(at, Tail(ms))

Says(built, s, at) ==
  CASE s.op = "print" -> Piece(FALSE, s.text)
    [] s.op = "say" -> IF Shown(built, s.level) THEN Said(at, s.msgs) ELSE <<>>
    [] s.op = "branch" -> IF ~s.cond THEN Piece(FALSE, s.text)
                          ELSE IF Shown(built, s.level) THEN Said(at, s.msgs) ELSE <<>>

Texts(out) == [i \in DOMAIN out |-> out[i].text]
IsMessage(p) == p.msg
IsOther(p) == ~p.msg
Apart(out) == SelectSeq(out, IsOther)
Only(out) == SelectSeq(out, IsMessage)

(* a can be got from b by leaving out elements. *)
RECURSIVE Within(_, _)
Within(a, b) ==
  IF a = <<>> THEN TRUE
  ELSE IF b = <<>> THEN FALSE
  ELSE IF Head(a) = Head(b) THEN Within(Tail(a), Tail(b)) ELSE Within(a, Tail(b))

(* The same run of a program built with two levels.  What a program that   *)
(* gives up has printed may not have left it yet; messages leave at once,  *)
(* and what was printed before them with them.                             *)
Begins(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
SameApart(a, b, whole) ==
  IF whole THEN a = b
  ELSE LET s == Glued(Texts(a))  t == Glued(Texts(b)) IN Begins(s, t) \/ Begins(t, s)
AsAtOther(lower, higher) ==
  /\ SameApart(Apart(lower.out), Apart(higher.out), lower.whole) = TRUE
  /\ Within(lower.out, higher.out)
  /\ lower.end = higher.end /\ lower.whole = higher.whole
=============================================================================
