------------------------------- MODULE Usage -------------------------------
(***************************************************************************)
(* The text that lists the options of a parser.  It is a sequence of lines *)
(* [at0, words]; at0: the line does not begin with a blank.  The entry of  *)
(* an option begins on such a line with its long name, everything up to    *)
(* the next line of this kind belongs to it.  How the words are divided    *)
(* into lines does not matter.                                             *)
(***************************************************************************)
EXTENDS CmdLine

IsBlankChar(c) == c = " " \/ c = "\t" \/ c = "\n"

RECURSIVE WordsFrom(_, _)
WordsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsBlankChar(Char(s, i)) THEN WordsFrom(s, i + 1)
  ELSE LET blanks == {j \in (i + 1)..Len(s) : IsBlankChar(Char(s, j))}
           e == IF blanks = {} THEN Len(s) + 1 ELSE MinOf(blanks) IN
       <<SubSeq(s, i, e - 1)>> \o WordsFrom(s, e)
WordsOf(s) == WordsFrom(s, 1)

Entries(lines) ==
  {i \in DOMAIN lines : lines[i].at0 /\ lines[i].words # <<>> /\ IsLong(lines[i].words[1])}

RECURSIVE EntryFrom(_, _)
EntryFrom(lines, i) ==        \* what follows on indented lines
  IF i > Len(lines) THEN <<>>
  ELSE IF lines[i].at0 /\ lines[i].words # <<>> THEN <<>>
  ELSE lines[i].words \o EntryFrom(lines, i + 1)
Entry(lines, i) == lines[i].words \o EntryFrom(lines, i + 1)

NamesOf(d) == <<d.name>> \o (IF d.short = "" THEN <<>> ELSE <<d.short>>)

(* The words of the entry of option d; nothing is said about the text of   *)
(* an option that was declared without one.                                *)
Describes(ws, d) ==
  LET n == NamesOf(d) IN
  /\ Len(ws) >= Len(n)
  /\ SubSeq(ws, 1, Len(n)) = n
  /\ d.desc # <<>> => SubSeq(ws, Len(n) + 1, Len(ws)) = WordsOf(d.desc[1])

(* Every option has exactly one entry, and there are no others. *)
UsageOk(decl, lines) ==
  LET es == Entries(lines)
      text == [i \in es |-> Entry(lines, i)] IN
  /\ Cardinality(es) = Len(decl)
  /\ \A k \in DOMAIN decl : \E i \in es : Describes(text[i], decl[k])
=============================================================================
