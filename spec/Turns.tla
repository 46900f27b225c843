-------------------------------- MODULE Turns --------------------------------
(***************************************************************************)
(* Clients that use objects of their own, call after call, in any order of *)
(* the calls of different clients.  Calls alternately give an object a     *)
(* value (keep) and ask it for the value (tell).  Every client gets the    *)
(* answers it would get if it were alone.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Clients,       \* how many
          Len_           \* calls of each

Who == 1 .. Clients

(* The n-th call of client k. *)
IsKeep(n) == n % 2 = 1
Value(k, n) == 100 * k + n

(* What the n-th call of client k answers when nobody else is there. *)
Alone(k, n) == IF IsKeep(n) THEN 0 ELSE Value(k, n - 1)

(* An order of calls: the number of the client of each; the calls of one   *)
(* client in an order, and which of its calls the i-th is.                 *)
Done(order, k) == Len(SelectSeq(order, LAMBDA x : x = k))
Nth(order, i) == Done(SubSeq(order, 1, i), order[i])
=============================================================================
