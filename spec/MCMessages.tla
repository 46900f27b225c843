----------------------------- MODULE MCMessages -----------------------------
(***************************************************************************)
(* All short programs, each built with all levels and run in step.  The    *)
(* machine keeps one text that everything is appended to; what the         *)
(* statements say one by one is the other description.                     *)
(***************************************************************************)
EXTENDS Messages, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen, Top

Built == 0..Top + 1                 \* the levels -1..Top, a cfg cannot hold -1
LevelOf(b) == b - 1

(* left: how many pieces of the output have left the program *)
VARIABLES prog, outs, text, left
vars == <<prog, outs, text, left>>

Statements ==
  {[op |-> "print", text |-> "x"]}
    \cup {[op |-> "say", level |-> n, msgs |-> m] : n \in 0..Top, m \in {<<<<"a">>>>, <<<<"a", "1">>, <<"b">>>>}}
    \cup {[op |-> "branch", cond |-> c, level |-> n, msgs |-> <<<<"a">>>>, text |-> "y\n"] : c \in BOOLEAN, n \in {0, Top}}

At(n) == "f:" \o ToString(n)

Init == prog = <<>> /\ outs = [b \in Built |-> <<>>] /\ text = [b \in Built |-> ""] /\ left = [b \in Built |-> 0]
Add(s) ==
  /\ Len(prog) < MaxLen
  /\ prog' = Append(prog, s)
  /\ outs' = [b \in Built |-> outs[b] \o Says(LevelOf(b), s, At(Len(prog) + 1))]
  /\ text' = [b \in Built |->
       CASE s.op = "print" \/ (s.op = "branch" /\ ~s.cond) -> text[b] \o s.text
         [] s.level > LevelOf(b) -> text[b]
         [] Len(s.msgs) = 1 -> text[b] \o At(Len(prog) + 1) \o ": " \o Glued(s.msgs[1]) \o "\n"
         [] OTHER -> text[b] \o At(Len(prog) + 1) \o ": " \o Glued(s.msgs[1]) \o "\n"
                             \o At(Len(prog) + 1) \o ": " \o Glued(s.msgs[2]) \o "\n"]
  /\ left' = [b \in Built |-> IF Says(LevelOf(b), s, "") # <<>> /\ Says(LevelOf(b), s, "")[1].msg
                               THEN Len(outs'[b]) ELSE left[b]]
Next == \E s \in Statements : Add(s)
Spec == Init /\ [][Next]_vars

SameText == \A b \in Built : Glued(Texts(outs[b])) = text[b]
Run(b) == [out |-> outs[b], end |-> "ok", whole |-> TRUE]
GivenUp(b) == [out |-> SubSeq(outs[b], 1, left[b]), end |-> "throw", whole |-> FALSE]
EveryLevel == \A a, b \in Built : a <= b => AsAtOther(Run(a), Run(b)) /\ AsAtOther(GivenUp(a), GivenUp(b))
AllAtTop == Len(Only(outs[Top + 1])) >= Len(SelectSeq(prog, LAMBDA s : s.op = "say"))
SilentBelow == Only(outs[0]) = <<>>
Emit == "EMIT" \in DOMAIN IOEnv /\ Len(prog) = MaxLen => CSVWrite("%1$s", <<ToJson([prog |-> prog])>>, IOEnv.EMIT)
=============================================================================
