------------------------------- MODULE MCOps -------------------------------
(***************************************************************************)
(* Design check of MatOps: the triple loop by which the library multiplies *)
(* computes the product, and the algebraic laws that the transfer integral *)
(* relies on follow from the definitions.                                  *)
(***************************************************************************)
EXTENDS MatOps, TLC

CONSTANTS Vals,       \* possible elements
          MaxDim

SmallVals == {0, 1, -2}

D == 1..MaxDim
Matrices(r, c) == {[r |-> r, c |-> c, s |-> 1, f |-> g] : g \in [Cells(r, c, 1) -> Vals]}

VARIABLES a, b,       \* operands
          p, i, j, k, sum, pc

vars == <<a, b, p, i, j, k, sum, pc>>

Init ==
  \E r, n, c \in D :
    /\ a \in Matrices(r, n)
    /\ b \in Matrices(n, c)
    /\ p = Zero(r, c, 1)
    /\ i = 1 /\ j = 1 /\ k = 1 /\ sum = 0 /\ pc = "sum"

Sum == /\ pc = "sum"
       /\ IF k <= a.c
          THEN /\ sum' = sum + At(a, i, k, 1) * At(b, k, j, 1)
               /\ k' = k + 1
               /\ UNCHANGED <<p, i, j, pc>>
          ELSE /\ p' = SetElem(p, i, j, 1, sum)
               /\ k' = 1 /\ sum' = 0
               /\ IF j < b.c THEN j' = j + 1 /\ i' = i /\ pc' = pc
                  ELSE /\ j' = 1
                       /\ IF i < a.r THEN i' = i + 1 /\ pc' = pc
                          ELSE i' = i /\ pc' = "done"
       /\ UNCHANGED <<a, b>>

Next == Sum
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Computes == pc = "done" => p = Mul(a, b)

Terminates == <>(pc = "done")

Unchanged == [][a' = a /\ b' = b]_vars

(* Laws; evaluated once per pair of operands. *)
Laws ==
  (pc = "done") =>
    /\ Transpose(Transpose(a)) = a
    /\ Transpose(Mul(a, b)) = Mul(Transpose(b), Transpose(a))
    /\ Mul(a, Identity(a.c)) = a /\ Mul(Identity(a.r), a) = a
    /\ Mul(Mul(a, b), Transpose(b)) = Mul(a, Mul(b, Transpose(b)))
    /\ CatRows(a, a) = Transpose(CatCols(Transpose(a), Transpose(a)))
    /\ \A x \in 1..a.r : RowMatrix(CatRows(b, b), IF x <= b.r THEN x ELSE 1)
                         = RowMatrix(b, IF x <= b.r THEN x ELSE 1)
    /\ \A x \in 1..a.r : Mul(RowMatrix(a, x), b) = RowMatrix(Mul(a, b), x)
    /\ \A x \in 1..b.c : Mul(a, ColMatrix(b, x)) = ColMatrix(Mul(a, b), x)
    /\ \A x \in 1..a.r : Diag(RowMatrix(a, x)) = Diag(Transpose(RowMatrix(a, x)))
=============================================================================
