------------------------------- MODULE MCTurns -------------------------------
(***************************************************************************)
(* All orders of the calls of a few clients.  Next to objects that have a  *)
(* memory each, the model has two wrong implementations: one memory for    *)
(* all objects, and a memory that keeps what any object was given first.   *)
(* Orders are written out with which of these they would expose, so that   *)
(* it is known that the orders executed with the code can tell.            *)
(***************************************************************************)
EXTENDS Turns, TLC, Json, CSV, IOUtils

VARIABLES own, one, first, order, wrong
vars == <<own, one, first, order, wrong>>

Nothing == 0

Init ==
  /\ own = [k \in Who |-> Nothing]
  /\ one = Nothing /\ first = Nothing
  /\ order = <<>>
  /\ wrong = [one |-> FALSE, first |-> FALSE, own |-> FALSE]

Call(k) ==
  LET n == Done(order, k) + 1
      v == Value(k, n)
      a == Alone(k, n)
  IN
  /\ n <= Len_
  /\ order' = Append(order, k)
  /\ IF IsKeep(n)
     THEN /\ own' = [own EXCEPT ![k] = v]
          /\ one' = v
          /\ first' = IF first = Nothing THEN v ELSE first
          /\ UNCHANGED wrong
     ELSE /\ wrong' = [one |-> wrong.one \/ one # a, first |-> wrong.first \/ first # a,
                       own |-> wrong.own \/ own[k] # a]
          /\ UNCHANGED <<own, one, first>>

Next == \E k \in Who : Call(k)
Spec == Init /\ [][Next]_vars

(* Objects with memories of their own answer what they answer alone, in    *)
(* every order; one memory for all would do so only when nobody comes      *)
(* between a value and the question for it.                                *)
Independent == ~wrong.own
Between ==
  wrong.one <=> \E i \in 1 .. Len(order) :
                  /\ ~IsKeep(Nth(order, i))
                  /\ \E j \in 1 .. i - 1 :
                       /\ order[j] # order[i] /\ IsKeep(Nth(order, j))
                       /\ \A m \in j .. i - 1 : order[m] = order[i] => ~IsKeep(Nth(order, m))
Complete == \A k \in Who : Done(order, k) = Len_

Emit == Complete =>
  CSVWrite("%1$s", <<ToJson([order |-> order, one |-> wrong.one, first |-> wrong.first])>>, IOEnv.EMIT)
=============================================================================
