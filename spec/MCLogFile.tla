------------------------------ MODULE MCLogFile ------------------------------
(***************************************************************************)
(* A program writes a log file, a section at a time, and remembers what    *)
(* the reader of the complete file has to return: the last energies of     *)
(* each spin, the last geometry, the last overlap matrix, the functions of  *)
(* the atoms in the last table.  The reader of LogFile returns exactly that, and rejects every   *)
(* file that ends within a table.                                          *)
(***************************************************************************)
EXTENDS LogFile, TLC, Json, CSV, IOUtils

CONSTANTS MaxSections, MaxBasis

VARIABLES file, st, want, did
vars == <<file, st, want, did>>

Text == [k |-> "text"]

(* Values are numbered, so that any two of one table differ. *)
Vals(from, n) == [i \in 1..n |-> from + i]

(* A table of energies: o occupied and v virtual values, at most w per line. *)
RECURSIVE Chunks(_, _, _, _, _)
Chunks(s, occ, from, n, w) ==
  IF n = 0 THEN <<>>
  ELSE LET m == IF n < w THEN n ELSE w IN
       <<[k |-> "en", spin |-> s, occ |-> occ, vals |-> Vals(from, m)]>>
         \o Chunks(s, occ, from + m, n - m, w)
EnergyTable(s, o, v, t) == Chunks(s, TRUE, t * 100, o, 5) \o Chunks(s, FALSE, t * 100 + o, v, 5)
EnergyOf(o, v, t) == [occ |-> Vals(t * 100, o), virt |-> Vals(t * 100 + o, v)]

CoordTable(n, t) ==
  <<[k |-> "chead"], [k |-> "csub"], [k |-> "rule"]>>
    \o [i \in 1..n |-> [k |-> "crow", xyz |-> Vals(t * 100 + 3 * i, 3)]] \o <<[k |-> "rule"]>>
CoordOf(n, t) == [i \in 1..n |-> Vals(t * 100 + 3 * i, 3)]

(* The overlap matrix of n functions; the value at (r, c) is 10000 t + 100 r + c. *)
RECURSIVE Groups(_, _, _)
Groups(n, col, t) ==
  IF col > n THEN <<>>
  ELSE <<[k |-> "ocols"]>>
       \o [i \in 1..(n - col + 1) |-> [k |-> "orow", r |-> col + i - 1,
             vals |-> [x \in 1..Width(col + i - 1, col) |-> 10000 * t + 100 * (col + i - 1) + col + x - 1]]]
       \o Groups(n, col + 5, t)
OverlapTable(n, t) == <<[k |-> "ohead"]>> \o Groups(n, 1, t)
OverlapWant(n, t) == [n |-> n, v |-> [r \in 1..n |-> [c \in 1..n |->
                     10000 * t + IF c <= r THEN 100 * r + c ELSE 100 * c + r]]]

(* Populations: atoms with the given numbers of functions, p columns; the  *)
(* elements differ from table to table.                                    *)
Labels == <<"1S", "2S", "2PX", "4D 0">>
Element(a, t) == <<"C", "Cl", "H">>[((a + t) % 3) + 1]
RECURSIVE PopLines(_, _, _, _)
PopLines(w, a, p, t) ==
  IF a > Len(w) THEN <<>>
  ELSE [i \in 1..w[a] |->
          IF i = 1 THEN [k |-> "patom", el |-> Element(a, t), lab |-> Labels[1], pops |-> Vals(100 * t + 10 * a, p)]
          ELSE [k |-> "pnext", lab |-> Labels[i], pops |-> Vals(100 * t + 10 * a + i, p)]]
       \o PopLines(w, a + 1, p, t)
PopTable(w, p, t) == <<[k |-> "phead"], [k |-> "pcols"]>> \o PopLines(w, 1, p, t) \o <<[k |-> "pend"]>>
PopOf(w, p, t) == [a \in 1..Len(w) |-> [el |-> Element(a, t), funs |-> [i \in 1..w[a] |->
                 [lab |-> Labels[i], pops |-> IF i = 1 THEN Vals(100 * t + 10 * a, p) ELSE Vals(100 * t + 10 * a + i, p)]]]]

Results(x) == [oe |-> x.oe, xyz |-> x.xyz, ov |-> x.ov, ao |-> x.ao]

Init ==
  /\ file \in {<<>>, <<Text>>}
  /\ st = ReadAll(Empty, file)
  /\ want = Results(Empty)
  /\ did = <<>>

Write(name, lines, new) ==
  /\ Len(did) < MaxSections
  /\ did' = Append(did, name)
  /\ file' = file \o lines
  /\ st' = ReadAll(st, lines)
  /\ want' = new

T == Len(did) + 1
After(name) == did # <<>> /\ did[Len(did)] = name

(* Energies of both spins or of one; a table of the same spin never        *)
(* follows one directly.                                                   *)
WriteText == /\ ~After("text") /\ Write("text", <<Text>>, want)
WriteEnergies ==
  \E s \in {<<"Alpha">>, <<"Alpha", "Beta">>, <<"Beta">>}, o \in {1, 5, 6}, v \in {0, 2} :
    /\ ~After("en")
    /\ LET lines(x) == IF x = "Alpha" THEN EnergyTable(x, o, v, T) ELSE EnergyTable(x, o - 1, v + 1, T)
           what(x) == IF x = "Alpha" THEN EnergyOf(o, v, T) ELSE EnergyOf(o - 1, v + 1, T) IN
       Write("en", lines(s[1]) \o (IF Len(s) = 2 THEN lines(s[2]) ELSE <<>>),
             [want EXCEPT !.oe = [x \in Spins |-> IF \E i \in DOMAIN s : s[i] = x THEN <<what(x)>> ELSE want.oe[x]]])
WriteCoord == \E n \in 1..2 : Write("coord", CoordTable(n, T), [want EXCEPT !.xyz = <<CoordOf(n, T)>>])
WriteOverlap ==
  \E n \in 1..MaxBasis :
    /\ (\E i \in DOMAIN did : did[i] = "over") => n \in {1, 4, 6}
    /\ Write("over", OverlapTable(n, T) \o <<Text>>, [want EXCEPT !.ov = <<OverlapWant(n, T)>>])
WritePop ==
  \E w \in {<<1>>, <<3>>, <<1, 1>>, <<2, 1>>, <<1, 4, 2>>}, p \in {1, 2, 4} :
    /\ Write("pop", PopTable(w, p, T), [want EXCEPT !.ao = <<PopOf(w, p, T)>>])

Next == WriteText \/ WriteEnergies \/ WriteCoord \/ WriteOverlap \/ WritePop
Spec == Init /\ [][Next]_vars

ReadsWhatWasWritten == AtEnd(st) = "ok" /\ Results(st) = want

(* Wherever the file ends: it is an error within a table, and otherwise    *)
(* the tables that are complete are there.                                 *)
Prefix(n) == SubSeq(file, 1, n)
Opens(n) == {i \in 1..n : file[i].k \in {"chead", "ohead", "phead"}}
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
FirstOf(S) == CHOOSE i \in S : \A j \in S : j >= i
EndOf(o) ==          \* last line of the table that line o opens
  CASE file[o].k = "chead" -> FirstOf({i \in (o + 3)..Len(file) : file[i].k = "rule"})
    [] file[o].k = "phead" -> FirstOf({i \in o..Len(file) : file[i].k = "pend"})
    [] OTHER -> LastOf({i \in o..Len(file) : \A j \in (o + 1)..i : file[j].k \in {"ocols", "orow"}})
Remaining(n) ==      \* lines of the open table that are missing
  IF Opens(n) = {} THEN {} ELSE (n + 1)..EndOf(LastOf(Opens(n)))
Truncation ==
  \A n \in 0..Len(file) :
    LET r == ReadAll(Empty, Prefix(n)) IN
    /\ r.mode # "bad"
    /\ Remaining(n) # {} => AtEnd(r) = "err"
    /\ AtEnd(r) = "err" => (Remaining(n) # {} \/ (r.mode = "over1" /\ Len(r.cur) <= 5))

Emit == "EMIT" \in DOMAIN IOEnv => CSVWrite("%1$s", <<ToJson([did |-> did, file |-> file])>>, IOEnv.EMIT)
=============================================================================
