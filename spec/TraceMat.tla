------------------------------ MODULE TraceMat ------------------------------
(***************************************************************************)
(* Trace validation of histories of real matrices: every event holds the   *)
(* call, its outcome and the contents of all slots observed after it.      *)
(***************************************************************************)
EXTENDS MatOps, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st

Slots == {1, 2, 3}

Observed(e, s) ==
  \A m \in Slots : /\ e.obs[m].r = s[m].r /\ e.obs[m].c = s[m].c /\ e.obs[m].s = s[m].s
                   /\ Len(e.obs[m].e) = Len(Flat(s[m]))
                   /\ e.obs[m].e = Flat(s[m])

Init == l = 1 /\ st = [m \in Slots |-> None]

Begin == /\ Trace[l].op = "begin"
         /\ st' = [m \in Slots |-> None]

SameMatrix(x, m) == /\ x.r = m.r /\ x.c = m.c /\ x.s = m.s
                    /\ Len(x.e) = Len(Flat(m))
                    /\ x.e = Flat(m)

(* An operation with a result; its operands stay as they are. *)
Operation ==
  LET e == Trace[l] IN
  /\ e.op \in OpNames
  /\ LET res == Result(st, e) IN
     \/ /\ res.k = "ok"
        /\ e.out = "ok"
        /\ SameMatrix(e.res, res.m)
     \/ /\ res.k = "err"
        /\ e.out \in {"throw", "exit"}
     \/ /\ res.k = "any"
        /\ e.out \in {"ok", "throw", "exit"}
  /\ e.out # "exit" => Observed(e, st)
  /\ st' = st

(* What several threads see in a matrix that nobody changes. *)
Readers ==
  LET e == Trace[l] IN
  /\ e.op = "readers"
  /\ e.out = "ok"
  /\ e.seen # <<>>
  /\ \A n \in 1 .. Len(e.seen) : SameMatrix(e.seen[n], st[e.m])
  /\ Observed(e, st)
  /\ st' = st

(* The text of a matrix; printing changes nothing. *)
Show ==
  LET e == Trace[l] IN
  /\ e.op = "show"
  /\ e.out = "ok"
  /\ Len(e.text) = Len(Shown(st[e.m]))
  /\ e.text = Shown(st[e.m])
  /\ Observed(e, st)
  /\ st' = st

(* Each element is kept at a place of its own, the places have no gaps; *)
(* which element is where is up to the code.                            *)
Places ==
  LET e == Trace[l]
      m == st[e.m]
  IN
  /\ e.op = "places"
  /\ e.out = "ok"
  /\ Len(e.val) = m.r * m.c * m.s
  /\ {e.val[n] : n \in 1..Len(e.val)} = 0..(Len(e.val) - 1)
  /\ Observed(e, st)
  /\ st' = st

Edit ==
  LET e == Trace[l] IN
  /\ e.op \notin OpNames \cup {"begin", "show", "places", "readers"}
  /\ LET res == Apply(st, e) IN
     IF res.err
     THEN /\ e.out \in {"throw", "exit"}        \* refused
          /\ e.out = "throw" => Observed(e, st)    \* and nothing changed
          /\ st' = st
     ELSE /\ e.out = "ok"
          /\ Len(e.val) = Len(res.val)
          /\ e.val = res.val
          /\ Observed(e, res.st)
          /\ st' = res.st

Next == l <= Len(Trace) /\ (Begin \/ Edit \/ Places \/ Operation \/ Readers \/ Show) /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, st>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
