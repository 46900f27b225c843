---------------------------- MODULE MCUnscramble ----------------------------
(***************************************************************************)
(* Design check of the reordering: the blocks of the dimer are put in the  *)
(* order of the monomers by a list of exchanges, which is first corrected  *)
(* for the exchanges made before (refresh) and then carried out (swap),    *)
(* monomer 2 first.  At the end every block is where the declarative       *)
(* definition in Atoms wants it, for every injective match.  Any other     *)
(* match is refused before anything is moved.                              *)
(***************************************************************************)
EXTENDS Atoms, TLC, Json, CSV, IOUtils

CONSTANTS MaxAtoms, MaxWidth,
          Wild        \* TRUE: also matches that have to be refused

VARIABLES n,          \* atoms of the dimer
          ma, mb,     \* match of monomer 1 and 2
          pa, pb,     \* the lists of exchanges <<to, from>>
          list,       \* block at each position
          pc, x

vars == <<n, ma, mb, pa, pb, list, pc, x>>

Injective(k, m) == {f \in [1..k -> 1..m] : \A i, j \in 1..k : i # j => f[i] # f[j]}

Init ==
  /\ n \in 1..MaxAtoms
  /\ \E ka \in 0..n : \E kb \in 0..(IF Wild THEN n + 1 - ka ELSE n - ka) :
       \E f \in IF Wild THEN [1..(ka + kb) -> -1..(n + 1)] ELSE Injective(ka + kb, n) :
         /\ ka + kb >= 1
         /\ ma = [i \in 1..ka |-> f[i]]
         /\ mb = [i \in 1..kb |-> f[ka + i]]
         /\ pa = [i \in 1..ka |-> <<i, f[i]>>]
         /\ pb = [i \in 1..kb |-> <<ka + i, f[ka + i]>>]
  /\ list = [i \in 1..n |-> i]
  /\ pc = "check" /\ x = 1

Check ==
  /\ pc = "check"
  /\ pc' = IF Usable(ma \o mb, n) THEN "refreshB" ELSE "refused"
  /\ UNCHANGED <<n, ma, mb, pa, pb, list, x>>

(* Later entries that refer to the position was now have to look at is. *)
Redirect(p, from, was, is) ==
  [i \in DOMAIN p |-> IF i >= from /\ p[i][2] = was THEN <<p[i][1], is>> ELSE p[i]]

RefreshB ==
  /\ pc = "refreshB"
  /\ IF x <= Len(pb)
     THEN /\ pb' = Redirect(pb, x + 1, pb[x][1], pb[x][2])
          /\ pa' = Redirect(pa, 1, pb[x][1], pb[x][2])
          /\ x' = x + 1 /\ pc' = pc
     ELSE x' = 1 /\ pc' = "refreshA" /\ UNCHANGED <<pa, pb>>
  /\ UNCHANGED <<n, ma, mb, list>>

RefreshA ==
  /\ pc = "refreshA"
  /\ IF x <= Len(pa)
     THEN /\ pa' = Redirect(pa, x + 1, pa[x][1], pa[x][2])
          /\ x' = x + 1 /\ pc' = pc
     ELSE x' = 1 /\ pc' = "swap" /\ UNCHANGED pa
  /\ UNCHANGED <<n, ma, mb, pb, list>>

Swap ==
  /\ pc = "swap"
  /\ LET all == pb \o pa IN
     IF x <= Len(all)
     THEN /\ list' = [list EXCEPT ![all[x][1]] = list[all[x][2]],
                                  ![all[x][2]] = list[all[x][1]]]
          /\ x' = x + 1 /\ pc' = pc
     ELSE pc' = "done" /\ UNCHANGED <<list, x>>
  /\ UNCHANGED <<n, ma, mb, pa, pb>>

Next == Check \/ RefreshB \/ RefreshA \/ Swap
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Permutation == {list[i] : i \in 1..n} = 1..n

(* The search for entries to redirect ends: it would not if an entry that  *)
(* stays where it is were followed by one that refers to its position.     *)
NoEndlessSearch ==
  /\ pc = "refreshB" /\ x <= Len(pb) /\ pb[x][1] = pb[x][2]
     => /\ \A i \in x + 1..Len(pb) : pb[i][2] # pb[x][1]
        /\ \A i \in DOMAIN pa : pa[i][2] # pb[x][1]
  /\ pc = "refreshA" /\ x <= Len(pa) /\ pa[x][1] = pa[x][2]
     => \A i \in x + 1..Len(pa) : pa[i][2] # pa[x][1]

Correct == pc = "done" => list \in Orders(ma \o mb, n)

Refuses == pc = "refused" => ~Usable(ma \o mb, n) /\ list = [i \in 1..n |-> i]

Terminates == <>(pc \in {"done", "refused"})

-----------------------------------------------------------------------------
(* The cases for the code: every match with a choice of block widths. *)
Widths == {[i \in 1..n |-> ((i + s) % MaxWidth) + 1] : s \in 0..(MaxWidth - 1)}

Emit ==
  (pc = "check" /\ "EMIT" \in DOMAIN IOEnv)
     => \A w \in Widths :
          CSVWrite("%1$s", <<ToJson([a |-> ma, b |-> mb, w |-> w])>>, IOEnv.EMIT)
=============================================================================
