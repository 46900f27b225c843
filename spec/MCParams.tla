------------------------------ MODULE MCParams ------------------------------
(***************************************************************************)
(* All short histories of two sets of parameters: a field has the value    *)
(* it was given last among those that were accepted since the parameters   *)
(* were made, or copied.                                                   *)
(***************************************************************************)
EXTENDS Params, TLC, Json, CSV, IOUtils

CONSTANTS MaxLen

VARIABLES ps, hist
vars == <<ps, hist>>

C(op, m, n, f, w) == [op |-> op, m |-> m, n |-> n, f |-> f, w |-> w]

ValuesOf(f) ==
  CASE f \in LogFields \cup PunFields -> {"a.log", "b.log", "a.pun", "d.log/b.7", ".orb", "a"}
    [] f \in SpinFields -> {"Alpha", "", "x y"}
    [] f \in TypeFields -> {"HOMO", "lumo"}
    [] f \in NumFields -> {"3", "-2147483648", "0"}
    [] OTHER -> {"0", "1"}

Calls ==
  {C("pset", m, 1, f, w) : m \in {1}, f \in Fields, w \in {"a.log", "b.log", "a.pun", "d.log/b.7", ".orb", "a", "Alpha", "", "x y",
        "HOMO", "lumo", "3", "-2147483648", "0", "1"}}
Allowed == {c \in Calls : c.w \in ValuesOf(c.f)}
           \cup {C("pcopy", m, n, "", "") : m \in {1, 2}, n \in {1, 2}}
           \cup {C("pnew", 1, 1, "", "")}

Init == ps = [m \in {1, 2} |-> Fresh] /\ hist = << >>
Next ==
  /\ Len(hist) < MaxLen
  /\ \E c \in Allowed :
       /\ hist' = Append(hist, c)
       /\ ps' = LET a == After(ps, c) IN IF a = <<>> THEN ps ELSE a[1]
Spec == Init /\ [][Next]_vars

(* The value of a field traced back through the history. *)
RECURSIVE Found(_, _, _)
Found(k, m, f) ==
  IF k = 0 THEN Fresh[f]
  ELSE LET c == hist[k] IN
       IF c.op = "pset" /\ c.m = m /\ c.f = f /\ Takes(f, c.w) THEN c.w
       ELSE IF c.op = "pnew" /\ c.m = m THEN Fresh[f]
       ELSE IF c.op = "pcopy" /\ c.m = m THEN Found(k - 1, c.n, f)
       ELSE Found(k - 1, m, f)

LastWins == \A m \in {1, 2}, f \in Fields : ps[m][f] = Found(Len(hist), m, f)
NamesFit == \A m \in {1, 2}, f \in LogFields \cup PunFields :
              ps[m][f] = "" \/ ExtOf(ps[m][f]) \in (IF f \in LogFields THEN LogExts ELSE PunExts3)

Emit ==
  (Len(hist) = MaxLen /\ "EMIT" \in DOMAIN IOEnv) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.EMIT)
=============================================================================
