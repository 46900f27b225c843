------------------------------ MODULE Ranking ------------------------------
(***************************************************************************)
(* Ranking of alpha and beta orbitals by energy.  The ranking is given as  *)
(* the ranks (keys) in increasing order, with the energy and the spin (1   *)
(* alpha, 2 beta) found under each.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})

OfSpin(ens, spins, x) == {i \in DOMAIN ens : spins[i] = x}

IsRanking(alpha, beta, keys, ens, spins) ==
  LET n == Len(alpha) + Len(beta) IN
  /\ Len(keys) = n /\ Len(ens) = n /\ Len(spins) = n
  /\ keys = [i \in 1..n |-> i]
  /\ \A i \in 1..(n - 1) : ens[i] <= ens[i + 1]
  /\ Cardinality(OfSpin(ens, spins, 1)) = Len(alpha)
  /\ Cardinality(OfSpin(ens, spins, 2)) = Len(beta)
  /\ \A v \in {alpha[i] : i \in DOMAIN alpha} :
       Cardinality({i \in OfSpin(ens, spins, 1) : ens[i] = v}) = Count(alpha, v)
  /\ \A v \in {beta[i] : i \in DOMAIN beta} :
       Cardinality({i \in OfSpin(ens, spins, 2) : ens[i] = v}) = Count(beta, v)
=============================================================================
