------------------------------- MODULE LogFile -------------------------------
(***************************************************************************)
(* Reading a log file, line by line.  A line is a record with a field k:   *)
(*   text                       anything else                             *)
(*   en      spin, occ, vals    orbital energies                           *)
(*   chead, csub, rule          lines around a table of coordinates        *)
(*   crow    xyz                one atom                                   *)
(*   ohead                      start of the overlap matrix                *)
(*   ocols                      numbers of the columns to follow           *)
(*   orow    r, vals            row r, as far as the diagonal              *)
(*   phead, pcols               start of the gross orbital populations     *)
(*   patom   el, lab, pops      first function of an atom                  *)
(*   pnext   lab, pops          another one                                *)
(*   pend                       end of that table                          *)
(* The values are not interpreted.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Spins == {"Alpha", "Beta"}
NoTable == <<>>          \* a table that was read is <<table>>

Empty == [mode |-> "text",
          oe   |-> [s \in Spins |-> NoTable],     \* or [occ, virt]
          xyz  |-> NoTable,                        \* or a sequence of triples
          ov   |-> NoTable,                        \* or [n, v]
          ao   |-> NoTable,                        \* or a sequence of [el, funs]
          cur  |-> <<>>,                           \* the table being read
          spin |-> "Alpha",
          col  |-> 0]                              \* first column of the group

Bad(st) == [st EXCEPT !.mode = "bad"]

(* Modes in which the file must not end. *)
TableModes == {"coord1", "coord2", "coord3", "overcols", "over1", "over", "pop1", "pop2", "pop"}

Energies(st, ln) ==
  LET old == IF st.mode = "en" /\ st.spin = ln.spin THEN st.oe[ln.spin][1] ELSE [occ |-> <<>>, virt |-> <<>>]
      new == IF ln.occ THEN [old EXCEPT !.occ = @ \o ln.vals] ELSE [old EXCEPT !.virt = @ \o ln.vals] IN
  [st EXCEPT !.mode = "en", !.spin = ln.spin, !.oe[ln.spin] = <<new>>]

Outside(st, ln) ==
  CASE ln.k = "en" -> Energies(st, ln)
    [] ln.k = "chead" -> [st EXCEPT !.mode = "coord1", !.cur = <<>>]
    [] ln.k = "ohead" -> [st EXCEPT !.mode = "overcols", !.cur = <<>>, !.col = 1]
    [] ln.k = "phead" -> [st EXCEPT !.mode = "pop1", !.cur = <<>>]
    [] OTHER -> [st EXCEPT !.mode = "text"]

(* The overlap matrix: cur holds the rows of the lower triangle. *)
Extended(rows, r, vals) ==
  IF r = Len(rows) + 1 THEN Append(rows, vals) ELSE [rows EXCEPT ![r] = @ \o vals]
OverlapOf(rows) == [n |-> Len(rows), v |-> [r \in 1..Len(rows) |-> [c \in 1..Len(rows) |->
                      IF c <= r THEN rows[r][c] ELSE rows[c][r]]]]
WholeOverlap(rows) == \A r \in DOMAIN rows : Len(rows[r]) = r
DoneOverlap(st, rows) == [st EXCEPT !.mode = "text", !.ov = <<OverlapOf(rows)>>, !.cur = <<>>]

Width(r, col) == IF r - col + 1 > 5 THEN 5 ELSE r - col + 1

OverRow(st, ln) ==
  IF Len(ln.vals) # Width(ln.r, st.col) THEN Bad(st)
  ELSE LET rows == Extended(st.cur, ln.r, ln.vals) IN
       IF st.mode = "over" /\ ln.r = Len(st.cur) /\ st.col + 5 > Len(st.cur)
       THEN DoneOverlap(st, rows)
       ELSE [st EXCEPT !.cur = rows,
                       !.mode = IF st.mode = "over" /\ ln.r = Len(st.cur) THEN "overcols" ELSE @]

Overlap(st, ln) ==
  CASE st.mode = "overcols" /\ ln.k = "ocols" ->
         [st EXCEPT !.mode = IF st.col = 1 THEN "over1" ELSE "over"]
    [] st.mode = "over1" /\ ln.k = "orow" /\ ln.r = Len(st.cur) + 1 -> OverRow(st, ln)
    [] st.mode = "over1" /\ ln.k = "ocols" /\ Len(st.cur) > 5 -> [st EXCEPT !.mode = "over", !.col = 6]
    [] st.mode = "over1" /\ ln.k # "orow" /\ Len(st.cur) \in 1..5 -> Outside(DoneOverlap(st, st.cur), ln)
    [] st.mode = "over" /\ ln.k = "orow" ->
         LET next == OverRow(st, ln) IN
         IF ln.r >= st.col /\ ln.r <= Len(st.cur) /\ Len(st.cur[ln.r]) = st.col - 1
         THEN [next EXCEPT !.col = IF next.mode = "overcols" THEN st.col + 5 ELSE @]
         ELSE Bad(st)
    [] OTHER -> Bad(st)

Step(st, ln) ==
  CASE st.mode = "bad" -> st
    [] st.mode \in {"text", "en"} -> Outside(st, ln)
    [] st.mode = "coord1" /\ ln.k = "csub" -> [st EXCEPT !.mode = "coord2"]
    [] st.mode = "coord2" /\ ln.k = "rule" -> [st EXCEPT !.mode = "coord3"]
    [] st.mode = "coord3" /\ ln.k = "crow" -> [st EXCEPT !.cur = Append(@, ln.xyz)]
    [] st.mode = "coord3" /\ ln.k = "rule" -> [st EXCEPT !.mode = "text", !.xyz = <<st.cur>>, !.cur = <<>>]
    [] st.mode \in {"overcols", "over1", "over"} -> Overlap(st, ln)
    [] st.mode = "pop1" /\ ln.k = "pcols" -> [st EXCEPT !.mode = "pop2"]
    [] st.mode \in {"pop2", "pop"} /\ ln.k = "patom" ->
         [st EXCEPT !.mode = "pop",
                    !.cur = Append(@, [el |-> ln.el, funs |-> <<[lab |-> ln.lab, pops |-> ln.pops]>>])]
    [] st.mode = "pop" /\ ln.k = "pnext" ->
         [st EXCEPT !.cur[Len(st.cur)].funs = Append(@, [lab |-> ln.lab, pops |-> ln.pops])]
    [] st.mode = "pop" /\ ln.k = "pend" -> [st EXCEPT !.mode = "text", !.ao = <<st.cur>>, !.cur = <<>>]
    [] OTHER -> Bad(st)

RECURSIVE ReadAll(_, _)
ReadAll(st, lines) == IF lines = <<>> THEN st ELSE ReadAll(Step(st, Head(lines)), Tail(lines))

AtEnd(st) == IF st.mode = "bad" THEN "bad" ELSE IF st.mode \in TableModes THEN "err" ELSE "ok"

(* The file is cut within the line ln.  part is "data" if all of its       *)
(* values and its distinguishing text are there and only its end is        *)
(* missing, otherwise "some".                                              *)
Closes(st, ln) ==       \* this line ends a table
  \/ st.mode = "coord3" /\ ln.k = "rule"
  \/ st.mode = "pop" /\ ln.k = "pend"
  \/ st.mode = "over1" /\ Len(st.cur) \in 1..5 /\ ln.k \notin {"orow", "ocols"}
  \/ st.mode = "over" /\ ln.k = "orow" /\ Step(st, ln).mode = "text"

Cut(st, ln, part) ==
  IF st.mode \notin TableModes THEN "any"
  ELSE IF Closes(st, ln) /\ (part = "data" \/ ln.k # "orow") THEN "closing"
  ELSE "err"
-----------------------------------------------------------------------------
(* What a reader tells (the fields of e) of the tables it has read.        *)
EnergiesOk(got, t) ==
  IF t = <<>> THEN got.e = <<>> /\ got.homo = -1
  ELSE got.e = t[1].occ \o t[1].virt /\ got.homo = Len(t[1].occ)

CoordsOk(got, t) ==
  IF t = <<>> THEN got = <<>>
  ELSE /\ Len(got) = 3
       /\ \A d \in 1..3 : got[d] = [i \in DOMAIN t[1] |-> t[1][i][d]]

OverlapOk(got, t) ==
  IF t = <<>> THEN got = <<>>
  ELSE /\ Len(got) = 1
       /\ Len(got[1]) = t[1].n
       /\ \A r \in 1..t[1].n : got[1][r] = t[1].v[r]

PopsOk(got, counts, t) ==
  IF t = <<>> THEN got = <<>> /\ counts = <<>>
  ELSE /\ counts = [a \in DOMAIN t[1] |-> Len(t[1][a].funs)]
       /\ Len(got) = Len(t[1])
       /\ \A a \in DOMAIN t[1] :
            /\ got[a].el = t[1][a].el
            /\ Len(got[a].funs) = Len(t[1][a].funs)
            /\ {got[a].funs[i] : i \in DOMAIN got[a].funs} = {t[1][a].funs[i] : i \in DOMAIN t[1][a].funs}

(* Everything that a reader tells.  en: the spin whose energies are not looked  *)
(* at ("" for none).                                                       *)
Shows(e, x, en) ==
  /\ en # "Alpha" => EnergiesOk(e.alpha, x.oe["Alpha"])
  /\ en # "Beta" => EnergiesOk(e.beta, x.oe["Beta"])
  /\ CoordsOk(e.xyz, x.xyz)
  /\ OverlapOk(e.ov, x.ov)
  /\ PopsOk(e.ao, e.counts, x.ao)

(* Those tables of x that there are. *)
ShowsThose(e, x) ==
  /\ x.oe["Alpha"] # <<>> => EnergiesOk(e.alpha, x.oe["Alpha"])
  /\ x.oe["Beta"] # <<>> => EnergiesOk(e.beta, x.oe["Beta"])
  /\ x.xyz # <<>> => CoordsOk(e.xyz, x.xyz)
  /\ x.ov # <<>> => OverlapOk(e.ov, x.ov)
  /\ x.ao # <<>> => PopsOk(e.ao, e.counts, x.ao)
=============================================================================
