----------------------------- MODULE MCSections -----------------------------
(***************************************************************************)
(* A reader at work, line by line, on all small files and registrations.   *)
(***************************************************************************)
EXTENDS Sections, TLC, Json, CSV, IOUtils

CONSTANTS MaxLines, Texts

VARIABLES lines, reg, does, st, pos, fn, at, got, calls
vars == <<lines, reg, does, st, pos, fn, at, got, calls>>

Does(k, n, w) == [k |-> k, n |-> n, w |-> w]
Ways == {Does("take", n, "") : n \in {0, 1, 2}} \cup {Does("back", n, "") : n \in {1, 2}}
          \cup {Does("give", n, "") : n \in {0, 1}} \cup {Does("until", 0, w) : w \in {"-", "b"}}
Sec(t, h, f) == [tag |-> t, headers |-> h, fn |-> f]
Whole_ == {<<Sec("A", h, 1), Sec("B", <<"b">>, 2)>> : h \in {<<"a">>, <<"a", "-">>}}
Partly == {<<Sec("A", h, f), Sec("B", g, e)>> : h \in {<<>>, <<"a">>}, f \in {0, 1}, g \in {<<>>, <<"b">>}, e \in {0, 2}}

Init ==
  /\ \/ reg \in Whole_ /\ lines \in UNION {[1..n -> Texts] : n \in 0..MaxLines} /\ does \in [{1, 2} -> Ways]
     \/ reg \in Partly /\ lines \in {<<"a">>} /\ does = [f \in {1, 2} |-> Does("take", 0, "")]
  /\ st = IF Complete(reg) THEN "scan" ELSE "refused"
  /\ pos = 1 /\ fn = 0 /\ at = 0 /\ got = <<>> /\ calls = <<>>

More == pos <= Len(lines)
Skip == /\ st = "scan" /\ More /\ Called(reg, lines[pos]) = {}
        /\ pos' = pos + 1 /\ UNCHANGED <<lines, reg, does, st, fn, at, got, calls>>
Call == /\ st = "scan" /\ More
        /\ \E f \in Called(reg, lines[pos]) :
             /\ fn' = f /\ at' = pos /\ got' = <<>> /\ st' = "in"
             /\ pos' = IF does[f].k = "back" THEN pos ELSE pos + 1
        /\ UNCHANGED <<lines, reg, does, calls>>
Wants == IF does[fn].k = "until" THEN got = <<>> \/ ~Contains(got[Len(got)], does[fn].w) ELSE Len(got) < does[fn].n
Take == /\ st = "in" /\ (Wants /\ More) = TRUE
        /\ got' = Append(got, lines[pos]) /\ pos' = pos + 1
        /\ UNCHANGED <<lines, reg, does, st, fn, at, calls>>
Return == /\ st = "in" /\ (Wants /\ More) = FALSE
          /\ calls' = Append(calls, [fn |-> fn, lines |-> got, at |-> at, to |-> pos - 1])
          /\ st' = IF does[fn].k = "give" THEN "given up" ELSE "scan"
          /\ UNCHANGED <<lines, reg, does, pos, fn, at, got>>
End == st = "scan" /\ ~More /\ st' = "whole" /\ UNCHANGED <<lines, reg, does, pos, fn, at, got, calls>>
Next == Skip \/ Call \/ Take \/ Return \/ End
Spec == Init /\ [][Next]_vars

Ended == st \in {"whole", "given up"}
Plain_ == [i \in DOMAIN calls |-> [fn |-> calls[i].fn, lines |-> calls[i].lines]]
Fits(cs, e) == Reading(reg, does, lines, 1, cs, e)
Without(i) == SubSeq(Plain_, 1, i - 1) \o SubSeq(Plain_, i + 1, Len(Plain_))
Twice(i) == SubSeq(Plain_, 1, i) \o SubSeq(Plain_, i, Len(Plain_))

Accepted_ == Ended => Fits(Plain_, st)
Other == Ended => ~Fits(Plain_, IF st = "whole" THEN "given up" ELSE "whole")
(* No call can be missing and none made twice.                             *)
Missed ==
  Ended /\ (\A j \in DOMAIN lines : Cardinality(Called(reg, lines[j])) <= 1)
        /\ Len(SelectSeq(lines, LAMBDA s : Called(reg, s) # {})) = Len(calls) =>
    \A i \in DOMAIN calls : ~Fits(Without(i), st) /\ ~Fits(Twice(i), st)
Forward == \A i \in DOMAIN calls : i > 1 => calls[i].at > calls[i - 1].at /\ calls[i].at > calls[i - 1].to
Everywhere ==
  st = "whole" =>
    \A j \in DOMAIN lines : Called(reg, lines[j]) # {} =>
      \E i \in DOMAIN calls : j = calls[i].at \/ (calls[i].at < j /\ j <= calls[i].to)
OnlyThere == \A i \in DOMAIN calls : calls[i].fn \in Called(reg, lines[calls[i].at])
Refused == st = "refused" <=> ~Complete(reg)

Emit == "EMIT" \in DOMAIN IOEnv /\ st \in {"whole", "given up", "refused"} =>
          CSVWrite("%1$s", <<ToJson([lines |-> lines, reg |-> reg, does |-> <<does[1], does[2]>>])>>, IOEnv.EMIT)
=============================================================================
