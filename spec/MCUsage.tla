------------------------------ MODULE MCUsage ------------------------------
(***************************************************************************)
(* A machine prints the options word by word and may begin a new, indented *)
(* line before any word: whatever it decides, the text tells the options,  *)
(* their names and their descriptions.                                     *)
(***************************************************************************)
EXTENDS Usage, TLC, Json, CSV, IOUtils

CONSTANTS Lengths,     \* of the words of a description
          MaxWords,
          AnyWrap      \* TRUE: a line may end before any word, FALSE: it never does

VARIABLES flags,       \* the options as they are declared
          Decl,        \* what is declared
          text,        \* the words of each option
          lines,       \* the lines printed so far
          todo         \* the words of the current option that are left, and the options after it

vars == <<flags, Decl, text, lines, todo>>

(* The k-th word; words of different places begin with different letters.  *)
Letters == "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"
WordK(k, n) == SubSeq(Letters, k, k + n - 1)

Descriptions == UNION {[1..n -> Lengths] : n \in 0..MaxWords}
RECURSIVE Text2(_, _)
Text2(lens, k) ==
  IF k > Len(lens) THEN ""
  ELSE (IF k = 1 THEN "" ELSE " ") \o WordK(k, lens[k]) \o Text2(lens, k + 1)

First == {<<"--ab">>, <<"--ab", "-x">>, <<"-x", "--abcd_fg">>}
Others == {<<>>, << <<"--z", "-zz", "last one">> >>, << <<"--a">>, <<"--abc", "an --ab", "-ab">> >>}

NoText == <<"NO", "TEXT">>
WordsOfOption(d) == NamesOf(d) \o (IF d.desc = <<>> THEN NoText ELSE WordsOf(d.desc[1]))

Init ==
  /\ \E f \in First, o \in Others, d \in Descriptions \cup {<<0>>} :
       flags = << IF d = <<0>> THEN f ELSE Append(f, Text2(d, 1)) >> \o o
  /\ Decl = Declared(flags)
  /\ text = [i \in DOMAIN Decl |-> WordsOfOption(Decl[i])]
  /\ lines = << >>
  /\ todo = << >>

Begun == Cardinality(Entries(lines))

NextOption ==
  /\ todo = <<>> /\ Begun < Len(Decl)
  /\ LET ws == text[Begun + 1] IN
     /\ lines' = lines \o <<[at0 |-> FALSE, words |-> <<>>], [at0 |-> TRUE, words |-> <<ws[1]>>]>>
     /\ todo' = Tail(ws)
  /\ UNCHANGED <<flags, Decl, text>>

SameLine2 ==
  /\ todo # <<>>
  /\ lines' = [lines EXCEPT ![Len(lines)].words = Append(@, Head(todo))]
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<flags, Decl, text>>

NewLine ==
  /\ AnyWrap
  /\ todo # <<>>
  /\ lines' = Append(lines, [at0 |-> FALSE, words |-> <<Head(todo)>>])
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<flags, Decl, text>>

Next == NextOption \/ SameLine2 \/ NewLine
Spec == Init /\ [][Next]_vars

Complete == todo = <<>> /\ Begun = Len(Decl)

Readable == UsageOk(Decl, lines) = Complete

(* A text that lacks a line or a word does not pass. *)
Sensitive ==
  Complete /\ Len(lines) <= 6 =>
    \A i \in DOMAIN lines :
      LET ws == lines[i].words
          less == [lines EXCEPT ![i].words = SubSeq(ws, 1, Len(ws) - 1)] IN
      ws # <<>> => \/ ~UsageOk(Decl, less)
                   \/ \E k \in DOMAIN Decl : Decl[k].desc = <<>>

Emit ==
  (lines = <<>> /\ "EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(flags)>>, IOEnv.EMIT)
=============================================================================
