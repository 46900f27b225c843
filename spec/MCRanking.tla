----------------------------- MODULE MCRanking -----------------------------
(***************************************************************************)
(* Design check: putting all orbitals in a list and sorting it by energy,  *)
(* in any order of exchanges, ends in a ranking; and a ranking determines  *)
(* the energies.  The columns are written out, to be run on the code.      *)
(***************************************************************************)
EXTENDS Ranking, TLC, Json, CSV, IOUtils

CONSTANTS Levels, MaxAlpha, MaxBeta

SomeLevels == {-1, 0, 2}

VARIABLES alpha, beta, list     \* list of <<energy, spin>>
vars == <<alpha, beta, list>>

Columns(n) == UNION {[1..k -> Levels] : k \in 0..n}

Init ==
  /\ alpha \in Columns(MaxAlpha) \ {<<>>}
  /\ beta \in Columns(MaxBeta)
  /\ list = [i \in 1..Len(alpha) |-> <<alpha[i], 1>>] \o [i \in 1..Len(beta) |-> <<beta[i], 2>>]

Unordered == {i \in 1..(Len(list) - 1) : list[i][1] > list[i + 1][1]}

Exchange ==
  \E i \in Unordered :
    /\ list' = [list EXCEPT ![i] = list[i + 1], ![i + 1] = list[i]]
    /\ UNCHANGED <<alpha, beta>>

Spec == Init /\ [][Exchange]_vars /\ WF_vars(Exchange)

Keys == [i \in 1..Len(list) |-> i]
Ens == [i \in 1..Len(list) |-> list[i][1]]
Spins == [i \in 1..Len(list) |-> list[i][2]]

Sorted == Unordered = {} <=> IsRanking(alpha, beta, Keys, Ens, Spins)
Ends == <>[](Unordered = {})

Emit ==
  ("EMIT" \in DOMAIN IOEnv /\ TLCGet("level") = 1)
    => CSVWrite("%1$s", <<ToJson([alpha |-> alpha, beta |-> beta])>>, IOEnv.EMIT)
=============================================================================
