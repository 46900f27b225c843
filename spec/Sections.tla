------------------------------ MODULE Sections ------------------------------
(***************************************************************************)
(* Readers of files that consist of sections (C33).  A class of readers     *)
(* registers sections: a tag with the texts its headers are known by, and   *)
(* the function that reads it.  Reading goes through the lines of a file;   *)
(* at each that contains a header the function of that section is called,   *)
(* and goes on after what the function has read.                            *)
(*                                                                         *)
(* A section: [tag, headers, fn]; headers <<>> or fn 0: not registered.     *)
(* What function fn does: does[fn] = [k, n, w]:                             *)
(*   take    reads the next n lines                                        *)
(*   until   reads lines up to one that contains w                         *)
(*   back    goes back to the header, reads n lines                        *)
(*   give    reads n lines and gives up                                    *)
(***************************************************************************)
EXTENDS Text

RECURSIVE Contains(_, _)
Contains(s, w) == Starts(s, w) \/ (Len(s) > Len(w) /\ Contains(SubSeq(s, 2, Len(s)), w))

Complete(reg) == \A i \in DOMAIN reg : (reg[i].headers = <<>>) = (reg[i].fn = 0)

Known(sec, line) == \E i \in DOMAIN sec.headers : Contains(line, sec.headers[i])
(* Functions one of which is called at the line. *)
Called(reg, line) == {reg[i].fn : i \in {j \in DOMAIN reg : Known(reg[j], line)}}

Least(a, b) == IF a < b THEN a ELSE b
(* The lines that are read by a function called at line i, and the line     *)
(* the reading goes on with.                                               *)
First(d, i) == IF d.k = "back" THEN i ELSE i + 1
To(d, lines, i) ==
  LET a == First(d, i) IN
  IF d.k # "until" THEN Least(a + d.n - 1, Len(lines))
  ELSE IF \E j \in a..Len(lines) : Contains(lines[j], d.w)
       THEN CHOOSE j \in a..Len(lines) : Contains(lines[j], d.w) /\ \A k \in a..j - 1 : ~Contains(lines[k], d.w)
       ELSE Len(lines)
Gets(d, lines, i) == SubSeq(lines, First(d, i), To(d, lines, i))

(* Can a reading of the lines from line i on consist of these calls, and    *)
(* end so?  calls: sequence of [fn, lines]                                  *)
RECURSIVE Reading(_, _, _, _, _, _)
Reading(reg, does, lines, i, calls, end) ==
  IF i > Len(lines) THEN calls = <<>> /\ end = "whole"
  ELSE LET fs == Called(reg, lines[i]) IN
       IF fs = {} THEN Reading(reg, does, lines, i + 1, calls, end)
       ELSE /\ calls # <<>>
            /\ calls[1].fn \in fs
            /\ LET d == does[calls[1].fn] IN
               /\ calls[1].lines = Gets(d, lines, i)
               /\ IF d.k = "give" THEN Len(calls) = 1 /\ end = "given up"
                  ELSE Reading(reg, does, lines, To(d, lines, i) + 1, Tail(calls), end)
=============================================================================
