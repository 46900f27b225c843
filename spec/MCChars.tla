------------------------------- MODULE MCChars -------------------------------
(***************************************************************************)
(* A machine that reads a string once, character by character, and keeps   *)
(* what every helper would have to return for the part read so far.  The   *)
(* definitions of Chars hold for it at every step, so they describe        *)
(* exactly one result for each string.                                     *)
(***************************************************************************)
EXTENDS Chars, TLC, Json, CSV, IOUtils

CONSTANTS Alphabet, MaxLen, OccAlphabet, MaxOcc

Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}

VARIABLES occ, read,    \* the text searched for, the characters read
          dir, last,    \* the path split
          words, word,  \* complete runs, the current run
          front,        \* without leading blanks
          kept,         \* without trailing blanks
          pend,         \* blanks held back at the end of front
          both,         \* trimmed
          first, final, \* start of the first and of the last occurrence (0: none)
          alpha

vars == <<occ, read, dir, last, words, word, front, kept, pend, both, first, final, alpha>>

Init ==
  /\ occ \in Strings(OccAlphabet, MaxOcc) \ {<<>>}
  /\ read = <<>> /\ dir = <<>> /\ last = <<>> /\ words = <<>> /\ word = <<>>
  /\ front = <<>> /\ kept = <<>> /\ pend = <<>> /\ both = <<>>
  /\ first = 0 /\ final = 0 /\ alpha = TRUE

Read(c) ==
  LET r == Append(read, c)
      here == Len(r) - Len(occ) + 1
      hit == here >= 1 /\ SubSeq(r, here, Len(r)) = occ IN
  /\ Len(read) < MaxLen
  /\ read' = r
  /\ IF c = Sep THEN dir' = r /\ last' = <<>> ELSE dir' = dir /\ last' = Append(last, c)
  /\ IF IsBlank(c)
     THEN /\ words' = (IF word = <<>> THEN words ELSE Append(words, word))
          /\ word' = <<>>
          /\ front' = (IF front = <<>> THEN <<>> ELSE Append(front, c))
          /\ pend' = Append(pend, c)
          /\ UNCHANGED <<kept, both>>
     ELSE /\ word' = Append(word, c) /\ UNCHANGED words
          /\ front' = Append(front, c)
          /\ kept' = kept \o Append(pend, c)
          /\ both' = (IF both = <<>> THEN <<c>> ELSE both \o Append(pend, c))
          /\ pend' = <<>>
  /\ first' = (IF first = 0 /\ hit THEN here ELSE first)
  /\ final' = (IF hit THEN here ELSE final)
  /\ alpha' = (alpha /\ c \in Letters)
  /\ occ' = occ

Next == \E c \in Alphabet : Read(c)
Spec == Init /\ [][Next]_vars

Result == IF word = <<>> THEN words ELSE Append(words, word)

Exact ==
  /\ IsPathSplit(read, dir, last)
  /\ IsSplit(read, Result)
  /\ IsLTrim(read, front) /\ IsRTrim(read, kept) /\ IsTrim(read, both)
  /\ (first = 0) = ~Found(read, occ)
  /\ first # 0 => /\ First(read, occ) = first /\ Last(read, occ) = final
                  /\ BeforeFirst(read, occ) \o occ \o AfterFirst(read, occ) = read
                  /\ BeforeLast(read, occ) \o occ \o AfterLast(read, occ) = read
                  /\ BeforeLast(read, occ) \o AfterLastIncl(read, occ) = read
                  /\ BeforeLastIncl(read, occ) \o AfterLast(read, occ) = read
                  /\ ~Found(Tail(AfterLastIncl(read, occ)), occ)
  /\ (alpha /\ read # <<>>) = IsAlphabetical(read)
  /\ \A n \in 0..Len(read) : /\ FirstN(read, n) \o CutBeg(read, n) = read
                             /\ CutEnd(read, n) \o LastN(read, n) = read
                             /\ Len(FirstN(read, n)) = n /\ Len(LastN(read, n)) = n

(* There is no other split into words or path parts (over short candidates). *)
Unique ==
  Len(read) <= 3 =>
    /\ \A k \in 0..Len(read) :
         IsPathSplit(read, SubSeq(read, 1, k), SubSeq(read, k + 1, Len(read))) => k = Len(dir)
    /\ \A k \in 0..Len(read) :
         /\ IsLTrim(read, SubSeq(read, k + 1, Len(read))) => SubSeq(read, k + 1, Len(read)) = front
         /\ IsRTrim(read, SubSeq(read, 1, k)) => SubSeq(read, 1, k) = kept

Emit ==
  "EMIT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([s |-> read, o |-> occ])>>, IOEnv.EMIT)
=============================================================================
