------------------------------ MODULE MCPunFile ------------------------------
(***************************************************************************)
(* A program writes coefficient files, line by line; the reader returns    *)
(* the coefficients of each spin's orbitals, and no orbital that is not    *)
(* complete.                                                               *)
(***************************************************************************)
EXTENDS PunFile, TLC, Json, CSV, IOUtils

CONSTANTS MaxOrbitals, Functions

VARIABLES n, file, st, want, row   \* row: coefficients left in the orbital
vars == <<n, file, st, want, row>>

Text == [k |-> "text"]
Value(s, i, c) == (IF s = "Alpha" THEN 1000 ELSE 2000) + 100 * i + c

Init ==
  /\ n \in Functions
  /\ file \in {<<>>, <<Text>>}
  /\ st = ReadAll(Empty, file)
  /\ want = [s \in Spins |-> <<>>]
  /\ row = 0

Write(ln) == file' = Append(file, ln) /\ st' = Step(st, ln) /\ n' = n

Start ==
  \E s \in Spins :
    /\ row = 0 /\ Len(want[s]) < MaxOrbitals
    /\ want[s] # <<>> => (file[Len(file)].k = "coef" /\ st.spin = s)
    /\ Write([k |-> "mo", i |-> Len(want[s]) + 1, spin |-> s])
    /\ want' = [want EXCEPT ![s] = Append(@, [c \in 1..n |-> Value(s, Len(want[s]) + 1, c)])]
    /\ row' = n

Coefs ==
  /\ row > 0
  /\ LET i == Len(st.rows[st.spin])
         m == IF row < 5 THEN row ELSE 5 IN
     /\ Write([k |-> "coef", vals |-> [c \in 1..m |-> Value(st.spin, i, n - row + c)]])
     /\ row' = row - m
  /\ want' = want

(* Something other than an orbital after those of a spin.  Only a second   *)
(* orbital tells where the first one ends.                                 *)
Other ==
  /\ row = 0 /\ file # <<>> /\ file[Len(file)].k = "coef" /\ Len(st.rows[st.spin]) > 1
  /\ Write(Text)
  /\ UNCHANGED <<want, row>>

Next == Start \/ Coefs \/ Other
Spec == Init /\ [][Next]_vars

Complete == row = 0 => (AtEnd(st, n) \in {"ok", "closing"} /\ st.rows = want)
Partial == row > 0 => AtEnd(st, n) = "err"

Emit == ("EMIT" \in DOMAIN IOEnv /\ row = 0 /\ ~Lonely(st, n))
          => CSVWrite("%1$s", <<ToJson([n |-> n, file |-> file])>>, IOEnv.EMIT)
=============================================================================
