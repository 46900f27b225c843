------------------------------- MODULE MCCalcJ -------------------------------
(***************************************************************************)
(* Command lines of calc_J made of up to MaxSegs segments (an option and   *)
(* its value, a help word, or something wrong) in any order, around the    *)
(* options that name the files of a run.  What Parse makes of the words is *)
(* compared with what the segments say.                                    *)
(***************************************************************************)
EXTENDS CalcJArgs, Json, CSV, IOUtils

CONSTANTS MaxSegs, EmitSegs

VARIABLES segs, at          \* the file options follow the first at segments
vars == <<segs, at>>

Places == {"a.pun", "a.log", "b.7", "b.log", "c.orb", "c.log", "b.pun", "e.pun", "e.log"}
Fs == [dirs |-> {<<>>, <<"up">>, Here}, files |-> {Here \o <<p>> : p \in Places}]
Base == <<"--pun_P", "a.pun", "-l_P", "a.log", "-p_1", "b.7", "--log_1", "b.log", "-p_2", "c.orb">>

S(w, k, n, v) == [w |-> w, k |-> k, n |-> n, v |-> v]
Gives(n, short, v) == {S(<<n, v>>, "give", n, v), S(<<short, v>>, "give", n, v)}
Short(n) == Table[CHOOSE i \in DOMAIN Table : Table[i][1] = n][2]
Both(n, V) == UNION {Gives(n, Short(n), v) : v \in V}
Bad(w) == S(w, "bad", "", "")

Good ==
  UNION {Both(n, {"Alpha", "Beta"}) : n \in {"--spin_P", "--spin_1"}}
  \cup Both("--orbital_type_1", {"HOMO", "LUMO"}) \cup {S(<<"-orb_ty_2", "LUMO">>, "give", "--orbital_type_2", "LUMO")}
  \cup Both("--orbital_num_1", {"0", "2", "-1"}) \cup {S(<<"--orbital_num_2", "1">>, "give", "--orbital_num_2", "1")}
  \cup {S(<<"--counter_poise", v>>, "give", "--counter_poise", v) : v \in SwitchWords}
  \cup {S(<<w>>, "give", "--counter_poise", "ON") : w \in {"-cp", "--counter_poise"}}
  \cup {S(<<"--pun_2", "e.pun">>, "give", "--pun_2", "e.pun"), S(<<"-l_P", "e.log">>, "give", "--log_P", "e.log"),
        S(<<"-s_2", "Beta">>, "give", "--spin_2", "Beta")}
Help == {S(<<w>>, "help", "", "") : w \in HelpWords \cup CiteWords}
Version == {S(<<w>>, "version", "", "") : w \in {"--version", "-v"}}
Wrong ==
  {Bad(w) : w \in
    { <<"x">>, <<"">>, <<"a.pun">>, <<"--pun">>, <<"-s">>, <<"--orbital_num_3", "0">>, <<"--spin">>,
      <<"--spin_1", "beta">>, <<"-s_P", "Gamma">>, <<"--spin_2", "">>, <<"--spin_1", "Alpha ">>,
      <<"--spin_1", "--spin_1">>, <<"-s_1", "-h">>,
      <<"--orbital_type_1", "homo">>, <<"-orb_ty_2", "HOMO-1">>, <<"-orb_ty_1", "-orb_ty_1">>,
      <<"--orbital_num_1", "1x">>, <<"-orb_num_2", "1.0">>, <<"--orbital_num_1", "">>, <<"-orb_num_1", "--">>,
      <<"--orbital_num_2", "2147483648">>, <<"-orb_num_1", "-2147483649">>, <<"--orbital_num_2", "one">>,
      <<"-cp", "on">>, <<"--counter_poise", "2">>, <<"-cp", "">>, <<"-cp", "YES">>,
      <<"-p_P", "a.log">>, <<"--pun_1", "b">>, <<"-p_2", "b.PUN">>, <<"--pun_P", "a.pun ">>,
      <<"--log_1", "a.pun">>, <<"-l_2", "a.log.gz">>, <<"-l_P", "log">>, <<"--log_P", "">> }}
Segs == Good \cup Help \cup Version \cup Wrong

RECURSIVE Words(_)
Words(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss).w \o Words(Tail(ss))
Line == Words(SubSeq(segs, 1, at)) \o Base \o Words(SubSeq(segs, at + 1, Len(segs)))

TheState == <<segs, at>>
Init == segs = <<>> /\ at = 0
Next == \/ Len(segs) < MaxSegs /\ \E s \in Segs : segs' = Append(segs, s) /\ at' = at
        \/ at = 0 /\ Len(segs) = 1 /\ at' = 1 /\ segs' = segs
Spec == Init /\ [][Next]_vars

R == Parse(Fs, CalcJParser, Line)
Kinds(k) == {i \in DOMAIN segs : segs[i].k = k}
(* -cp in front of the files is followed by an option there; a bare        *)
(* switch in front of a segment that is no option would take its word.     *)
Takes ==
  \E i \in DOMAIN segs :
    /\ segs[i].w \in {<<"-cp">>, <<"--counter_poise">>} /\ i < Len(segs) /\ i # at
    /\ ~IsFlag(CalcJParser, segs[i + 1].w[1])

BaseValue(n) ==
  IF \E i \in DOMAIN Base : Base[i] \in {n, Short(n)} THEN Value(Base[(CHOOSE i \in DOMAIN Base : Base[i] \in {n, Short(n)}) + 1])
  ELSE DefaultOf(n)
Expected(n) ==
  LET gs == {i \in DOMAIN segs : segs[i].n = n}
      after == {i \in gs : i > at} IN
  IF n = "--help" THEN None
  ELSE IF after # {} THEN Value(segs[MaxOf(after)].v)
  ELSE IF BaseValue(n).k = "is" /\ BaseValue(n) # DefaultOf(n) THEN BaseValue(n)
  ELSE IF gs # {} THEN Value(segs[MaxOf(gs)].v) ELSE DefaultOf(n)

Accepts ==
  ~Takes /\ Kinds("bad") \cup Kinds("version") = {} =>
    /\ R.out = "ok"
    /\ \A n \in DOMAIN R.P.val : R.P.val[n] = Expected(n)
Rejects ==
  ~Takes /\ Kinds("bad") # {} /\ (Kinds("version") # {} => MinOf(Kinds("bad")) < MinOf(Kinds("version"))) => R.out = "no"
Versions ==
  ~Takes /\ Kinds("version") # {} /\ (Kinds("bad") # {} => MinOf(Kinds("version")) < MinOf(Kinds("bad"))) => R.out = "exit0"
OnlyHelp ==
  segs # <<>> /\ Kinds("help") = DOMAIN segs =>
    /\ Parse(Fs, CalcJParser, Words(segs)).out = "exit0"
    /\ R.out = "ok" /\ R.P.val = Parse(Fs, CalcJParser, Base).P.val
Dangling ==
  ~Takes /\ R.out = "ok" =>
    \A i \in DOMAIN Table : KindOfName(Table[i][1]) \notin {"none", "ARGUMENT_SWITCH"} =>
      Parse(Fs, CalcJParser, Line \o <<Table[i][2]>>).out = "no"
Defaults ==
  segs = <<>> =>
    /\ \A r \in Roles : R.P.val["--spin_" \o r] = Value("Alpha")
    /\ \A r \in {"1", "2"} : R.P.val["--orbital_type_" \o r] = Value("HOMO") /\ R.P.val["--orbital_num_" \o r] = Value("0")
    /\ R.P.val["--counter_poise"] = Value("OFF") /\ Runs(Fs, R.P)

Emit ==
  "EMIT" \in DOMAIN IOEnv /\ Len(segs) = EmitSegs /\ ~Takes =>
    CSVWrite("%1$s", <<ToJson([line |-> Line, kinds |-> [i \in DOMAIN segs |-> segs[i].k]])>>, IOEnv.EMIT)
=============================================================================
