------------------------------- MODULE MatOps -------------------------------
(***************************************************************************)
(* What the operations with a result matrix compute.  Result(st, e) is     *)
(* [k |-> "ok", m |-> matrix], [k |-> "err"] for a call that has to be     *)
(* refused and [k |-> "any"] where nothing is promised.  No operation      *)
(* changes its operands.                                                   *)
(***************************************************************************)
EXTENDS Mat

RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)

Mul(a, b) ==
  Make(a.r, b.c, 1,
       LAMBDA i, j, k : SumTo(LAMBDA n : At(a, i, n, 1) * At(b, n, j, 1), a.c))

Transpose(a) == Make(a.c, a.r, 1, LAMBDA i, j, k : At(a, j, i, 1))

Identity(n) == Make(n, n, 1, LAMBDA i, j, k : IF i = j THEN 1 ELSE 0)

(* A row or a column of n values as an n by n matrix. *)
Diag(a) ==
  LET n == a.r * a.c IN
  Make(n, n, 1, LAMBDA i, j, k : IF i = j THEN Flat(a)[i] ELSE 0)

CatRows(a, b) ==
  Make(a.r + b.r, a.c, a.s,
       LAMBDA i, j, k : IF i <= a.r THEN At(a, i, j, k) ELSE At(b, i - a.r, j, k))

CatCols(a, b) ==
  Make(a.r, a.c + b.c, a.s,
       LAMBDA i, j, k : IF j <= a.c THEN At(a, i, j, k) ELSE At(b, i, j - a.c, k))

RowMatrix(a, i) == Make(1, a.c, a.s, LAMBDA x, j, k : At(a, i, j, k))
ColMatrix(a, j) == Make(a.r, 1, a.s, LAMBDA i, x, k : At(a, i, j, k))

OkM(m) == [k |-> "ok", m |-> m]
ErrM   == [k |-> "err"]
AnyM   == [k |-> "any"]

OpNames == {"mul", "tr", "diag", "catrows", "catcols", "mrow", "mcol", "dup",
            "listd", "listi", "listl"}

Result(st, e) ==
  LET a == st[e.m]
      b == st[e.n]
  IN
  CASE e.op = "mul"     -> IF a.c = b.r /\ a.s = 1 /\ b.s = 1 THEN OkM(Mul(a, b)) ELSE ErrM
    [] e.op = "tr"      -> IF a.s = 1 THEN OkM(Transpose(a)) ELSE AnyM
    [] e.op = "diag"    -> IF a.s = 1 /\ (a.r = 1 \/ a.c = 1) THEN OkM(Diag(a)) ELSE AnyM
    [] e.op = "catrows" -> IF a.c = b.c /\ a.s = b.s THEN OkM(CatRows(a, b)) ELSE AnyM
    [] e.op = "catcols" -> IF a.r = b.r /\ a.s = b.s THEN OkM(CatCols(a, b)) ELSE AnyM
    [] e.op = "mrow"    -> IF e.i \in 1..a.r THEN OkM(RowMatrix(a, e.i)) ELSE ErrM
    [] e.op = "mcol"    -> IF e.i \in 1..a.c THEN OkM(ColMatrix(a, e.i)) ELSE ErrM
    [] e.op = "dup"     -> OkM(a)
    [] e.op \in {"listd", "listi"} -> OkM(OfList(Len(e.row), 1, 1, e.row))
    [] e.op = "listl"   ->
         IF \E x \in DOMAIN e.rows : Len(e.rows[x]) # Len(e.rows[1]) THEN ErrM
         ELSE OkM(Make(Len(e.rows), Len(e.rows[1]), 1, LAMBDA i, j, k : e.rows[i][j]))
=============================================================================
