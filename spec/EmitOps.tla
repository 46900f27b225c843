------------------------------ MODULE EmitOps ------------------------------
(* Every operation on every pair of small shapes, to be run on the code.   *)
EXTENDS MatOps, TLC, Json, CSV, IOUtils

CONSTANTS MaxDim, MaxShelf

VARIABLE case
D == 1..MaxDim
Shapes == D \X D \X (1..MaxShelf)
Value(m, n) == (IF n % 3 = 0 THEN -1 ELSE 1) * (m * 4099 + n * 1031)
Elements(m, s) == [n \in 1..(s[1] * s[2] * s[3]) |-> Value(m, n)]

Ev(op, i) == [op |-> op, m |-> 1, n |-> 2, i |-> i, row |-> <<>>, rows |-> <<>>]

Init ==
  \/ \E x, y \in Shapes : \E op \in {"mul", "catrows", "catcols"} :
       case = [a |-> x, b |-> y, ea |-> Elements(1, x), eb |-> Elements(2, y), e |-> Ev(op, 1)]
  \/ \E x \in Shapes : \E op \in {"tr", "diag", "dup", "mrow", "mcol"} : \E i \in -1..(MaxDim + 2) :
       /\ op \in {"tr", "diag", "dup"} => i = 1
       /\ case = [a |-> x, b |-> <<1, 1, 1>>, ea |-> Elements(1, x), eb |-> <<5>>, e |-> Ev(op, i)]
  \/ \E n \in 1..(2 * MaxDim) : \E op \in {"listd", "listi"} :
       case = [a |-> <<1, 1, 1>>, b |-> <<1, 1, 1>>, ea |-> <<1>>, eb |-> <<1>>,
               e |-> [Ev(op, 1) EXCEPT !.row = Elements(1, <<n, 1, 1>>)]]
  \/ \E n \in 1..MaxDim : \E w \in [1..n -> 1..3] :
       case = [a |-> <<1, 1, 1>>, b |-> <<1, 1, 1>>, ea |-> <<1>>, eb |-> <<1>>,
               e |-> [Ev("listl", 1) EXCEPT !.rows = [x \in 1..n |-> Elements(x, <<1, w[x], 1>>)]]]

Spec == Init /\ [][UNCHANGED case]_case
Emit == CSVWrite("%1$s", <<ToJson(case)>>, IOEnv.EMIT)
=============================================================================
