-------------------------------- MODULE Chars --------------------------------
(***************************************************************************)
(* Strings as sequences of character codes, and what the text helpers      *)
(* return for them.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Sep == 47
Blanks == {9, 10, 11, 12, 13, 32}
Letters == (65..90) \cup (97..122)

IsBlank(c) == c \in Blanks
Part(s, i, j) == SubSeq(s, i, j)

(* A path in two parts. *)
IsPathSplit(s, dir, last) ==
  /\ dir \o last = s
  /\ \A i \in DOMAIN last : last[i] # Sep
  /\ dir = <<>> \/ dir[Len(dir)] = Sep

(* The first n and the rest; the last n and the rest. *)
FirstN(s, n) == Part(s, 1, n)
CutBeg(s, n) == Part(s, n + 1, Len(s))
LastN(s, n) == Part(s, Len(s) - n + 1, Len(s))
CutEnd(s, n) == Part(s, 1, Len(s) - n)

(* Trimming. *)
IsLTrim(s, r) ==
  /\ Len(r) <= Len(s)
  /\ LET k == Len(s) - Len(r) IN
     /\ \A i \in 1..k : IsBlank(s[i])
     /\ r = Part(s, k + 1, Len(s))
  /\ r = <<>> \/ ~IsBlank(r[1])
IsRTrim(s, r) ==
  /\ Len(r) <= Len(s)
  /\ r = Part(s, 1, Len(r))
  /\ \A i \in (Len(r) + 1)..Len(s) : IsBlank(s[i])
  /\ r = <<>> \/ ~IsBlank(r[Len(r)])
IsTrim(s, r) ==
  \E i \in 1..(Len(s) + 1) : IsLTrim(s, Part(s, i, Len(s))) /\ IsRTrim(Part(s, i, Len(s)), r)

(* The maximal runs of characters that are not blank, in order. *)
Starts(s) == {i \in DOMAIN s : ~IsBlank(s[i]) /\ (i = 1 \/ IsBlank(s[i - 1]))}
RunFrom(s, i) ==
  LET ends == {k \in i..Len(s) : \A x \in i..k : ~IsBlank(s[x])} IN
  Part(s, i, CHOOSE k \in ends : \A y \in ends : y <= k)
IsSplit(s, words) ==
  LET st == Starts(s) IN
  /\ Len(words) = Cardinality(st)
  /\ \A i \in st : words[Cardinality({k \in st : k <= i})] = RunFrom(s, i)

(* Occurrences of a text that is not empty. *)
At(s, o) == {i \in 1..(Len(s) - Len(o) + 1) : Part(s, i, i + Len(o) - 1) = o}
Found(s, o) == At(s, o) # {}
First(s, o) == CHOOSE i \in At(s, o) : \A k \in At(s, o) : i <= k
Last(s, o) == CHOOSE i \in At(s, o) : \A k \in At(s, o) : i >= k

AfterFirst(s, o) == IF Found(s, o) THEN Part(s, First(s, o) + Len(o), Len(s)) ELSE <<>>
AfterLast(s, o) == IF Found(s, o) THEN Part(s, Last(s, o) + Len(o), Len(s)) ELSE <<>>
AfterLastIncl(s, o) == IF Found(s, o) THEN Part(s, Last(s, o), Len(s)) ELSE <<>>
BeforeFirst(s, o) == IF Found(s, o) THEN Part(s, 1, First(s, o) - 1) ELSE s
BeforeLast(s, o) == IF Found(s, o) THEN Part(s, 1, Last(s, o) - 1) ELSE s
BeforeLastIncl(s, o) == IF Found(s, o) THEN Part(s, 1, Last(s, o) + Len(o) - 1) ELSE s

IsAlphabetical(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in Letters
=============================================================================
