------------------------------- MODULE MCMat -------------------------------
(***************************************************************************)
(* Design check of Mat: the library keeps a matrix as a flat buffer with a *)
(* stride per dimension that is reallocated by every change of shape.  The *)
(* machine below edits such buffers the way the code does (element by      *)
(* element, with the strides of the old and of the new shape) next to the  *)
(* abstract matrix, the invariant says that both always agree.  Every      *)
(* history is written out to be replayed on the real class.                *)
(***************************************************************************)
EXTENDS Mat, TLC, Json, CSV, IOUtils

CONSTANTS MaxDim,     \* largest number of rows, columns, shelves
          MaxLen      \* longest history

VARIABLES st,         \* slot -> abstract matrix
          buf,        \* slot -> [r, c, s, e]: flat buffer
          dim,        \* the shape of the first matrix at the start
          hist        \* the edits made, each with a fresh value

vars == <<st, buf, dim, hist>>

Slots == {1, 2}

At0(b, i, j, k) == b.e[(i - 1) * b.c * b.s + (j - 1) * b.s + k]

(* A new buffer, filled element by element in storage order. *)
Fill(r, c, s, F(_, _, _)) ==
  [r |-> r, c |-> c, s |-> s,
   e |-> IF r * c * s = 0 THEN <<>>
         ELSE [n \in 1..(r * c * s) |->
                 F(((n - 1) \div (c * s)) + 1, (((n - 1) \div s) % c) + 1, ((n - 1) % s) + 1)]]

Put(b, i, j, k, v) == [b EXCEPT !.e[(i - 1) * b.c * b.s + (j - 1) * b.s + k] = v]

RECURSIVE PutLine(_, _, _, _)
PutLine(b, pos, line, n) ==       \* pos[x]: the cell of the x-th value
  IF n > Len(line) THEN b
  ELSE PutLine(Put(b, pos[n][1], pos[n][2], 1, line[n]), pos, line, n + 1)

PutRow(b, i, line) == PutLine(b, [j \in 1..b.c |-> <<i, j>>], line, 1)
PutCol(b, j, line) == PutLine(b, [i \in 1..b.r |-> <<i, j>>], line, 1)
BRow(b, i) == [j \in 1..b.c |-> At0(b, i, j, 1)]
BCol(b, j) == [i \in 1..b.r |-> At0(b, i, j, 1)]

(* The code moves a line by shifting its neighbours one by one. *)
RECURSIVE ShiftRows(_, _, _)
ShiftRows(b, a, t) ==
  IF a = t THEN b
  ELSE IF a < t THEN ShiftRows(PutRow(b, a, BRow(b, a + 1)), a + 1, t)
  ELSE ShiftRows(PutRow(b, a, BRow(b, a - 1)), a - 1, t)
RECURSIVE ShiftCols(_, _, _)
ShiftCols(b, a, t) ==
  IF a = t THEN b
  ELSE IF a < t THEN ShiftCols(PutCol(b, a, BCol(b, a + 1)), a + 1, t)
  ELSE ShiftCols(PutCol(b, a, BCol(b, a - 1)), a - 1, t)

Keep(b, r, c, s) ==
  Fill(r, c, s, LAMBDA i, j, k :
         IF i <= b.r /\ j <= b.c /\ k <= b.s THEN At0(b, i, j, k) ELSE 0)

BApply(e) ==
  LET b == buf[e.m] IN
  CASE e.op = "new"     -> Fill(e.i, e.j, e.k, LAMBDA i, j, k : 0)
    [] e.op = "set"     -> Put(b, e.i, e.j, e.k, e.v)
    [] e.op = "setrow"  -> PutRow(b, e.i, e.row)
    [] e.op = "setcol"  -> PutCol(b, e.i, e.row)
    [] e.op = "swaprow" -> PutRow(PutRow(b, e.j, BRow(b, e.i)), e.i, BRow(b, e.j))
    [] e.op = "swapcol" -> PutCol(PutCol(b, e.j, BCol(b, e.i)), e.i, BCol(b, e.j))
    [] e.op = "moverow" -> PutRow(ShiftRows(b, e.i, e.j), e.j, BRow(b, e.i))
    [] e.op = "movecol" -> PutCol(ShiftCols(b, e.i, e.j), e.j, BCol(b, e.i))
    [] e.op = "rows"    -> Keep(b, e.i, b.c, b.s)
    [] e.op = "cols"    -> Keep(b, b.r, e.i, b.s)
    [] e.op = "shel"    -> Keep(b, b.r, b.c, e.i)
    [] e.op = "resize"  -> Keep([b EXCEPT !.s = 1, !.e = [n \in 1..(b.r * b.c) |->
                                  At0(b, ((n - 1) \div b.c) + 1, ((n - 1) % b.c) + 1, 1)]],
                                e.i, e.j, 1)
    [] e.op \in {"copy", "assign", "mcopy"} -> buf[e.n]
    [] e.op = "pass"    -> b

-----------------------------------------------------------------------------
Ev(op, m, n, i, j, k, v, row) ==
  [op |-> op, m |-> m, n |-> n, i |-> i, j |-> j, k |-> k, v |-> v, row |-> row]

Fresh == 10 * (Len(hist) + 1)
D == 1..MaxDim

Edits ==
  UNION {
    LET b == buf[m] IN
      {Ev("set", m, 1, i, j, k, Fresh, <<>>) : i \in 1..b.r, j \in 1..b.c, k \in 1..b.s}
      \cup {Ev("setrow", m, 1, i, 1, 1, 0, [x \in 1..b.c |-> Fresh + x]) : i \in 1..b.r}
      \cup {Ev("setcol", m, 1, j, 1, 1, 0, [x \in 1..b.r |-> Fresh + x]) : j \in 1..b.c}
      \cup {Ev(o, m, 1, i, j, 1, 0, <<>>) : o \in {"swaprow", "moverow"}, i \in 1..b.r, j \in 1..b.r}
      \cup {Ev(o, m, 1, i, j, 1, 0, <<>>) : o \in {"swapcol", "movecol"}, i \in 1..b.c, j \in 1..b.c}
      \cup {Ev(o, m, 1, i, 1, 1, 0, <<>>) : o \in {"rows", "cols", "shel"}, i \in D}
      \cup {Ev("resize", m, 1, i, j, 1, 0, <<>>) : i \in D, j \in D}
      \cup {Ev(o, m, n, 1, 1, 1, 0, <<>>) : o \in {"copy", "assign", "mcopy"}, n \in Slots}
      \cup {Ev("pass", m, 1, 1, 1, 1, 0, <<>>)}
    : m \in Slots}

(* Both matrices start with distinct values in every cell. *)
Start(m, r, c, s) ==
  [r |-> r, c |-> c, s |-> s, e |-> [n \in 1..(r * c * s) |-> m * 1000 + n]]

Init ==
  \E r, c, s \in D :
    /\ buf = [m \in Slots |-> IF m = 1 THEN Start(1, r, c, s) ELSE Start(2, c, r, 1)]
    /\ st = [m \in Slots |-> OfList(buf[m].r, buf[m].c, buf[m].s, buf[m].e)]
    /\ dim = <<r, c, s>>
    /\ hist = << >>

Next ==
  /\ Len(hist) < MaxLen
  /\ \E e \in Edits :
       /\ Apply(st, e).err = FALSE
       /\ st' = Apply(st, e).st
       /\ buf' = [buf EXCEPT ![e.m] = BApply(e)]
       /\ dim' = dim
       /\ hist' = Append(hist, e)

Spec == Init /\ [][Next]_vars

(* The flat buffer always represents the abstract matrix. *)
Represents ==
  \A m \in Slots : /\ st[m].r = buf[m].r /\ st[m].c = buf[m].c /\ st[m].s = buf[m].s
                   /\ Flat(st[m]) = buf[m].e

(* The printed text determines the matrix. *)
ReadBack(t) ==
  LET at(w) == t[CHOOSE n \in 1..Len(t) : t[n].w = w].n
      vals == SelectSeq(t, LAMBDA x : x.w = "value")
      r == at("rows")
      c == at("cols")
  IN Make(r, c, at("shel"), LAMBDA i, j, k : vals[(k - 1) * r * c + (i - 1) * c + j].n)
Legible == \A m \in Slots : ReadBack(Shown(st[m])) = st[m]

(* An edit of one matrix never changes the other. *)
Independent == [][\A m \in Slots : m # hist'[Len(hist')].m => st'[m] = st[m]]_vars

(* Edits with an inverse *)
Involutions ==
  \A m \in Slots : LET x == st[m] IN
    /\ \A a, b \in 1..x.r : /\ SwapRow(SwapRow(x, a, b), a, b) = x
                            /\ MoveRow(MoveRow(x, a, b), b, a) = x
    /\ \A a, b \in 1..x.c : /\ SwapCol(SwapCol(x, a, b), a, b) = x
                            /\ MoveCol(MoveCol(x, a, b), b, a) = x

View == <<st, buf, Len(hist)>>

Emit ==
  (Len(hist) = MaxLen /\ "EMIT" \in DOMAIN IOEnv)
     => CSVWrite("%1$s", <<ToJson([dim |-> dim, hist |-> hist])>>, IOEnv.EMIT)
=============================================================================
