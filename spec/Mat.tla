-------------------------------- MODULE Mat --------------------------------
(***************************************************************************)
(* The abstract matrix of the library and every edit a user can make to it.*)
(* A matrix is a record [r, c, s, f]: f maps (row, column, shelf), all     *)
(* counted from 1, to an integer.  `None' is an empty slot.                *)
(*                                                                         *)
(* Apply(st, e) gives the outcome of the edit e on the slots st: either    *)
(* the new slots and the value read, or an error (the call is refused:     *)
(* an exception or the end of the program).  A line (row or column) is a   *)
(* line of the first shelf; resize makes a matrix two dimensional.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == [r |-> -1, c |-> -1, s |-> -1, f |-> <<>>]

Cells(r, c, s) == (1..r) \X (1..c) \X (1..s)

Make(r, c, s, F(_, _, _)) ==
  [r |-> r, c |-> c, s |-> s,
   f |-> [x \in Cells(r, c, s) |-> F(x[1], x[2], x[3])]]

Zero(r, c, s) == Make(r, c, s, LAMBDA i, j, k : 0)

At(m, i, j, k) == m.f[<<i, j, k>>]

Inside(m, i, j, k) == i \in 1..m.r /\ j \in 1..m.c /\ k \in 1..m.s

(* Row major list of the elements, the shelf running fastest. *)
Flat(m) ==
  IF m.r * m.c * m.s <= 0 THEN <<>>
  ELSE [n \in 1..(m.r * m.c * m.s) |->
          At(m, ((n - 1) \div (m.c * m.s)) + 1,
                (((n - 1) \div m.s) % m.c) + 1,
                ((n - 1) % m.s) + 1)]

OfList(r, c, s, e) ==
  Make(r, c, s, LAMBDA i, j, k : e[(i - 1) * c * s + (j - 1) * s + k])

-----------------------------------------------------------------------------
(* Edits *)

SetElem(m, i, j, k, v) == [m EXCEPT !.f[<<i, j, k>>] = v]

SetRow(m, i, row) ==
  Make(m.r, m.c, m.s,
       LAMBDA a, b, k : IF a = i /\ k = 1 THEN row[b] ELSE At(m, a, b, k))

SetCol(m, j, col) ==
  Make(m.r, m.c, m.s,
       LAMBDA a, b, k : IF b = j /\ k = 1 THEN col[a] ELSE At(m, a, b, k))

Row(m, i) == [j \in 1..m.c |-> At(m, i, j, 1)]
Col(m, j) == [i \in 1..m.r |-> At(m, i, j, 1)]

(* The line that is found at position x after exchanging a and b. *)
SwapSrc(a, b, x) == IF x = a THEN b ELSE IF x = b THEN a ELSE x

(* The line that is found at position x after line a was moved to b. *)
MoveSrc(a, b, x) ==
  IF x = b THEN a
  ELSE IF a < b /\ x >= a /\ x < b THEN x + 1
  ELSE IF a > b /\ x > b /\ x <= a THEN x - 1
  ELSE x

PermRows(m, Src(_)) ==
  Make(m.r, m.c, m.s,
       LAMBDA i, j, k : IF k = 1 THEN At(m, Src(i), j, 1) ELSE At(m, i, j, k))
PermCols(m, Src(_)) ==
  Make(m.r, m.c, m.s,
       LAMBDA i, j, k : IF k = 1 THEN At(m, i, Src(j), 1) ELSE At(m, i, j, k))

SwapRow(m, a, b) == PermRows(m, LAMBDA x : SwapSrc(a, b, x))
SwapCol(m, a, b) == PermCols(m, LAMBDA x : SwapSrc(a, b, x))
MoveRow(m, a, b) == PermRows(m, LAMBDA x : MoveSrc(a, b, x))
MoveCol(m, a, b) == PermCols(m, LAMBDA x : MoveSrc(a, b, x))

(* Enlarging adds zeros, reducing keeps the positions that remain. *)
Reshape(m, r, c, s) ==
  Make(r, c, s, LAMBDA i, j, k : IF Inside(m, i, j, k) THEN At(m, i, j, k) ELSE 0)

-----------------------------------------------------------------------------
(* The text a matrix is printed as, word by word: its shape, then shelf by *)
(* shelf the columns and the rows with their elements.                     *)

Word(w, n) == [w |-> w, n |-> n]

ShelfText(m, k) ==
  [n \in 1..(1 + m.c + m.r * (1 + m.c)) |->
     IF n = 1 THEN Word("Shelf", k)
     ELSE IF n <= 1 + m.c THEN Word("Col", n - 1)
     ELSE LET x == n - 2 - m.c
              i == (x \div (1 + m.c)) + 1
              j == x % (1 + m.c)
          IN IF j = 0 THEN Word("Row", i) ELSE Word("value", At(m, i, j, k))]

RECURSIVE Shelves(_, _)
Shelves(m, k) == IF k = 0 THEN <<>> ELSE Shelves(m, k - 1) \o ShelfText(m, k)

Shown(m) ==
  <<Word("rows", m.r), Word("cols", m.c), Word("shel", m.s)>> \o Shelves(m, m.s)

-----------------------------------------------------------------------------
(* Outcomes *)

Ok(st, val) == [err |-> FALSE, st |-> st, val |-> val]
Err(st)     == [err |-> TRUE,  st |-> st, val |-> <<>>]

Check(st, ok, new, val) == IF ok THEN Ok(new, val) ELSE Err(st)

Apply(st, e) ==
  LET m == st[e.m]
      put(x) == [st EXCEPT ![e.m] = x]
  IN
  CASE e.op = "make"    -> Ok(put(OfList(e.i, e.j, e.k, e.row)), <<>>)
    [] e.op = "new"     -> Check(st, e.i >= 1 /\ e.j >= 1 /\ e.k >= 1,
                                 put(Zero(e.i, e.j, e.k)), <<>>)
    [] e.op = "new2"    -> Check(st, e.i >= 1 /\ e.j >= 1,
                                 put(Zero(e.i, e.j, 1)), <<>>)
    [] e.op = "new1"    -> Check(st, e.i >= 1, put(Zero(e.i, 1, 1)), <<>>)
    [] e.op = "def"     -> Ok(put(Zero(1, 1, 1)), <<>>)
    [] e.op = "set"     -> Check(st, Inside(m, e.i, e.j, e.k),
                                 put(SetElem(m, e.i, e.j, e.k, e.v)), <<>>)
    [] e.op = "set2"    -> Check(st, Inside(m, e.i, e.j, 1),
                                 put(SetElem(m, e.i, e.j, 1, e.v)), <<>>)
    [] e.op = "ptrset"  -> Ok(put(SetElem(m, e.i, e.j, 1, e.v)), <<>>)  \* through a pointer
    [] e.op = "ptr"     -> Ok(st, <<At(m, e.i, e.j, 1)>>)
    [] e.op = "set1"    -> Check(st, Inside(m, e.i, 1, 1),
                                 put(SetElem(m, e.i, 1, 1, e.v)), <<>>)
    [] e.op = "set0"    -> Ok(put(SetElem(m, 1, 1, 1, e.v)), <<>>)
    [] e.op = "get"     -> IF Inside(m, e.i, e.j, e.k)
                           THEN Ok(st, <<At(m, e.i, e.j, e.k)>>) ELSE Err(st)
    [] e.op = "get2"    -> IF Inside(m, e.i, e.j, 1)
                           THEN Ok(st, <<At(m, e.i, e.j, 1)>>) ELSE Err(st)
    [] e.op = "get1"    -> IF Inside(m, e.i, 1, 1)
                           THEN Ok(st, <<At(m, e.i, 1, 1)>>) ELSE Err(st)
    [] e.op = "get0"    -> Ok(st, <<At(m, 1, 1, 1)>>)
    [] e.op = "total"   -> Ok(st, <<m.r * m.c * m.s>>)
    [] e.op = "getrow"  -> IF e.i \in 1..m.r THEN Ok(st, Row(m, e.i)) ELSE Err(st)
    [] e.op = "getcol"  -> IF e.i \in 1..m.c THEN Ok(st, Col(m, e.i)) ELSE Err(st)
    [] e.op = "setrow"  -> IF Len(e.row) = m.c /\ e.i \in 1..m.r
                           THEN Ok(put(SetRow(m, e.i, e.row)), <<>>) ELSE Err(st)
    [] e.op = "setcol"  -> IF Len(e.row) = m.r /\ e.i \in 1..m.c
                           THEN Ok(put(SetCol(m, e.i, e.row)), <<>>) ELSE Err(st)
    [] e.op = "swaprow" -> IF e.i \in 1..m.r /\ e.j \in 1..m.r
                           THEN Ok(put(SwapRow(m, e.i, e.j)), <<>>) ELSE Err(st)
    [] e.op = "swapcol" -> IF e.i \in 1..m.c /\ e.j \in 1..m.c
                           THEN Ok(put(SwapCol(m, e.i, e.j)), <<>>) ELSE Err(st)
    [] e.op = "moverow" -> IF e.i \in 1..m.r /\ e.j \in 1..m.r
                           THEN Ok(put(MoveRow(m, e.i, e.j)), <<>>) ELSE Err(st)
    [] e.op = "movecol" -> IF e.i \in 1..m.c /\ e.j \in 1..m.c
                           THEN Ok(put(MoveCol(m, e.i, e.j)), <<>>) ELSE Err(st)
    [] e.op = "rows"    -> Ok(put(Reshape(m, e.i, m.c, m.s)), <<>>)
    [] e.op = "cols"    -> Ok(put(Reshape(m, m.r, e.i, m.s)), <<>>)
    [] e.op = "shel"    -> Ok(put(Reshape(m, m.r, m.c, e.i)), <<>>)
    [] e.op = "resize"  -> Check(st, e.i >= 1 /\ e.j >= 1,
                                 put(Reshape(m, e.i, e.j, 1)), <<>>)
    [] e.op = "copy"    -> Ok(put(st[e.n]), <<>>)    \* construct from another
    [] e.op = "assign"  -> Ok(put(st[e.n]), <<>>)    \* assign another (or itself)
    [] e.op = "mcopy"   -> Ok(put(st[e.n]), <<>>)    \* Matrix_copy
    [] e.op = "pass"    -> Ok(st, <<>>)              \* pass by value, edit the copy
=============================================================================
