------------------------------ MODULE MCWorld ------------------------------
(***************************************************************************)
(* All histories of two runs among two files.  A run opens its files one   *)
(* after the other, in an order of its own, and stops at the first one     *)
(* that is missing; the steps of two runs are interleaved in every way.    *)
(* What a run shows at the end is what its command shows on the files of   *)
(* its beginning, and on those of its end.  The histories are written out, *)
(* to be run with the program.                                             *)
(***************************************************************************)
EXTENDS World, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANT MaxLen

VARIABLES files, going, held, hist
vars == <<files, going, held, hist>>

Names == {1, 2}
Runs == {1, 2}
Reads(cmd) == CASE cmd = 1 -> <<1, 2>> [] cmd = 2 -> <<2, 1>>
Missing == 0

Init ==
  /\ files = NoFiles
  /\ going = [r \in Runs |-> Idle]
  /\ held = [r \in Runs |-> <<>>]         \* what it has read, and the files of its beginning
  /\ hist = <<>>

Do(e) == hist' = Append(hist, e)
Ev(op, a, b) == [op |-> op, a |-> a, b |-> b]

Put(f, c) ==
  /\ MayEdit(going) /\ (f \in DOMAIN files => files[f] # c)
  /\ files' = Written(files, f, c) /\ Do(Ev("put", f, c)) /\ UNCHANGED <<going, held>>
Drop(f) ==
  /\ MayEdit(going) /\ f \in DOMAIN files
  /\ files' = Removed(files, f) /\ Do(Ev("drop", f, 0)) /\ UNCHANGED <<going, held>>
Start(r, cmd) ==
  /\ going[r] = Idle /\ going' = Started(going, r, cmd)
  /\ held' = [held EXCEPT ![r] = [got |-> <<>>, then |-> files]]
  /\ Do(Ev("start", r, cmd)) /\ UNCHANGED files

Stopped(h) == h.got # <<>> /\ h.got[Len(h.got)] = Missing
Read(r) ==
  /\ going[r] # Idle /\ ~Stopped(held[r]) /\ Len(held[r].got) < Len(Reads(going[r][1]))
  /\ LET f == Reads(going[r][1])[Len(held[r].got) + 1] IN
     held' = [held EXCEPT ![r].got = Append(@, IF f \in DOMAIN files THEN files[f] ELSE Missing)]
  /\ UNCHANGED <<files, going, hist>>
End(r) ==
  /\ going[r] # Idle /\ (Stopped(held[r]) \/ Len(held[r].got) = Len(Reads(going[r][1])))
  /\ going' = Ended(going, r) /\ Do(Ev("end", r, 0)) /\ UNCHANGED <<files, held>>

Next ==
  \/ \E r \in Runs : Read(r)
  \/ /\ Len(hist) < MaxLen
     /\ \/ \E f \in Names : Drop(f) \/ \E c \in {1, 2} : Put(f, c)
        \/ \E r \in Runs : End(r) \/ \E cmd \in {1, 2} : Start(r, cmd)
Spec == Init /\ [][Next]_vars

(* What a command shows on given files: what it reads of them. *)
Shows(fs, cmd) ==
  LET all == [i \in DOMAIN Reads(cmd) |->
                IF Reads(cmd)[i] \in DOMAIN fs THEN fs[Reads(cmd)[i]] ELSE Missing]
      gone == {i \in DOMAIN all : all[i] = Missing} IN
  IF gone = {} THEN all ELSE SubSeq(all, 1, CHOOSE i \in gone : \A j \in gone : i <= j)

Repeatable ==
  \A r \in Runs : going[r] # Idle =>
    LET h == held[r]
        cmd == going[r][1] IN
    /\ h.then = files
    /\ Len(h.got) <= Len(Shows(files, cmd)) /\ h.got = SubSeq(Shows(files, cmd), 1, Len(h.got))
    /\ ENABLED End(r) => h.got = Shows(files, cmd)
(* Two runs of the same command at a time show the same. *)
Alike == going[1] # Idle /\ going[1] = going[2] /\ ENABLED End(1) /\ ENABLED End(2)
           => held[1].got = held[2].got

Ends == {i \in DOMAIN hist : hist[i].op = "end"}
Emit ==
  "EMIT" \in DOMAIN IOEnv /\ Len(hist) = MaxLen /\ hist[MaxLen].op = "end" /\ Cardinality(Ends) >= 2
  /\ MayEdit(going)
  => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.EMIT)
View == <<files, going, held, hist>>
=============================================================================
