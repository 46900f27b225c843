------------------------------- MODULE MCRoles -------------------------------
(***************************************************************************)
(* The files of the dimer for every choice of names given and every set of *)
(* files there are, next to the fixed ones of the monomers.                *)
(***************************************************************************)
EXTENDS CalcJArgs, Json, CSV, IOUtils

CONSTANTS Puns_, Logs_, Places_

VARIABLES role, pun, log, there
vars == <<role, pun, log, there>>

At(p) == Here \o Components(p)
Fixed == {"o.pun", "o.log", "q.log", "q.7", "a b/x.orb", "a b/x.log"}
Fs == [dirs |-> {<<>>, <<"up">>, Here, Here \o <<"a b">>},
       files |-> {At(p) : p \in there \cup Fixed}]

Others == Roles \ {role}
Lower == CHOOSE r \in Others : \A s \in Others : r = s \/ <<r, s>> \in {<<"1", "2">>, <<"1", "P">>, <<"2", "P">>}
Upper == CHOOSE r \in Others : r # Lower
Line ==
  (IF pun = "" THEN <<>> ELSE <<"--pun_" \o role, pun>>)
  \o <<"--pun_" \o Lower, "o.pun", "--log_" \o Upper, "q.log">>
  \o (IF log = "" THEN <<>> ELSE <<"--log_" \o role, log>>)

Init == /\ role \in Roles /\ pun \in Puns_ /\ log \in Logs_ /\ there = {}
Next == \E p \in Places_ \ there : there' = there \cup {p} /\ UNCHANGED <<role, pun, log>>
Spec == Init /\ [][Next]_vars

P == Parse(Fs, CalcJParser, Line).P
Is(p) == p # "" /\ Exists(Fs, p)
Cut(p, n) == SubSeq(p, 1, Len(p) - n)                 \* without its last n letters
Ext(p) == CHOOSE e \in {".pun", ".7", ".orb", ".log"} :
             Len(p) >= Len(e) /\ SubSeq(p, Len(p) - Len(e) + 1, Len(p)) = e
Rank(e) == CASE e = ".pun" -> 1 [] e = ".7" -> 2 [] e = ".orb" -> 3
Stem(p) == Cut(p, Len(Ext(p)))

Taken == Parse(Fs, CalcJParser, Line).out = "ok"

ThePun ==
  LET f == PunOf(Fs, P, role) IN
  /\ f # <<>> => /\ Is(f[1])
                 /\ f[1] # pun => Stem(f[1]) = Stem(log) /\ Ext(f[1]) \in {".pun", ".7", ".orb"}
                 /\ \A e \in {".pun", ".7", ".orb"} :
                      f[1] # pun /\ Is(Stem(log) \o e) => Rank(Ext(f[1])) <= Rank(e)
  /\ Is(pun) => f = <<pun>>
  /\ f = <<>> => ~Is(pun) /\ (log # "" => \A e \in {".pun", ".7", ".orb"} : ~Is(Stem(log) \o e))
TheLog ==
  LET f == LogOf(Fs, P, role) IN
  /\ f # <<>> => Is(f[1]) /\ (f[1] # log => f[1] = Stem(pun) \o ".log")
  /\ Is(log) => f = <<log>>
  /\ f = <<>> => ~Is(log) /\ (pun # "" => ~Is(Stem(pun) \o ".log"))
(* The other roles have their own files, whatever this one has. *)
TheOthers ==
  /\ PunOf(Fs, P, Lower) = <<"o.pun">> /\ LogOf(Fs, P, Lower) = <<"o.log">>
  /\ LogOf(Fs, P, Upper) = <<"q.log">>
  /\ PunOf(Fs, P, Upper) = <<IF "q.pun" \in there THEN "q.pun" ELSE "q.7">>
RunsIff == Runs(Fs, P) = (PunOf(Fs, P, role) # <<>> /\ LogOf(Fs, P, role) # <<>>)

Emit ==
  "EMIT" \in DOMAIN IOEnv =>
    CSVWrite("%1$s", <<ToJson([line |-> Line, files |-> there \cup Fixed])>>, IOEnv.EMIT)
=============================================================================
