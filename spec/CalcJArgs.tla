----------------------------- MODULE CalcJArgs -----------------------------
(***************************************************************************)
(* The command line of calc_J: its options, their rules and defaults, and  *)
(* the parameters of a run that follow from it and from the files there    *)
(* are.                                                                    *)
(***************************************************************************)
EXTENDS CmdLine

Roles == {"P", "1", "2"}
PunExts == <<".pun", ".7", ".orb">>       \* in order of preference

Table ==
  << <<"--pun_P", "-p_P">>, <<"--pun_1", "-p_1">>, <<"--pun_2", "-p_2">>,
     <<"--log_P", "-l_P">>, <<"--log_1", "-l_1">>, <<"--log_2", "-l_2">>,
     <<"--spin_P", "-s_P">>, <<"--spin_1", "-s_1">>, <<"--spin_2", "-s_2">>,
     <<"--orbital_type_1", "-orb_ty_1">>, <<"--orbital_type_2", "-orb_ty_2">>,
     <<"--orbital_num_1", "-orb_num_1">>, <<"--orbital_num_2", "-orb_num_2">>,
     <<"--counter_poise", "-cp">>, <<"--citation", "-cite">>, <<"--version", "-v">> >>

Puns == {"--pun_" \o r : r \in Roles}
Logs == {"--log_" \o r : r \in Roles}
Spins == {"--spin_" \o r : r \in Roles}
Types == {"--orbital_type_" \o r : r \in {"1", "2"}}
Nums == {"--orbital_num_" \o r : r \in {"1", "2"}}

FileArg(exts) == [FreshArg("ARGUMENT_FILE") EXCEPT !["PROPERTY_FILE_EXT"] = Put(@, "ALLOWED_FILE_EXT", exts)]
ChoiceArg(choices) ==
  [FreshArg("ARGUMENT_STRING") EXCEPT !["PROPERTY_STRING_CHOICE"] =
     Put(Put(@, "STRING_CHOICE_ENFORCED", <<"true">>), "STRING_CHOICES", choices)]

Names == {Table[i][1] : i \in DOMAIN Table} \cup {"--help"}
KindOfName(n) ==
  CASE n \in Puns \cup Logs -> "ARGUMENT_FILE"
    [] n \in Spins \cup Types -> "ARGUMENT_STRING"
    [] n \in Nums -> "ARGUMENT_INT"
    [] n = "--counter_poise" -> "ARGUMENT_SWITCH"
    [] OTHER -> "none"
ArgOfName(n) ==
  CASE n \in Puns -> FileArg(PunExts)
    [] n \in Logs -> FileArg(<<".log">>)
    [] n \in Spins -> ChoiceArg(<<"Alpha", "Beta">>)
    [] n \in Types -> ChoiceArg(<<"HOMO", "LUMO">>)
    [] n \in Nums -> FreshArg("ARGUMENT_INT")
    [] n = "--counter_poise" -> FreshArg("ARGUMENT_SWITCH")
    [] OTHER -> <<>>
DefaultOf(n) ==
  CASE n \in Spins -> Value("Alpha")
    [] n \in Types -> Value("HOMO")
    [] n \in Nums -> Value("0")
    [] n = "--counter_poise" -> Value("OFF")
    [] OTHER -> None

CalcJParser ==
  [decl |-> Declared(Table),
   kind |-> [n \in Names |-> KindOfName(n)],
   arg |-> [n \in Names |-> ArgOfName(n)],
   val |-> [n \in Names |-> DefaultOf(n)]]

-----------------------------------------------------------------------------
ValueOf(P, n) == P.val[n].w
IsGiven(P, n) == P.val[n].k = "is"

(* The coefficient and log file of a role: <<>> or <<path>>. *)
PunOf(fs, P, r) ==
  LET p == "--pun_" \o r
      q == "--log_" \o r
      found == {i \in DOMAIN PunExts : IsGiven(P, q) /\ Exists(fs, Sister(ValueOf(P, q), PunExts[i]))} IN
  IF IsGiven(P, p) /\ Exists(fs, ValueOf(P, p)) THEN <<ValueOf(P, p)>>
  ELSE IF found # {} THEN <<Sister(ValueOf(P, q), PunExts[MinOf(found)])>> ELSE <<>>
LogOf(fs, P, r) ==
  LET p == "--pun_" \o r
      q == "--log_" \o r IN
  IF IsGiven(P, q) /\ Exists(fs, ValueOf(P, q)) THEN <<ValueOf(P, q)>>
  ELSE IF IsGiven(P, p) /\ Exists(fs, Sister(ValueOf(P, p), ".log")) THEN <<Sister(ValueOf(P, p), ".log")>>
  ELSE <<>>

Number(P, r) == IntWord(ValueOf(P, "--orbital_num_" \o r))[1]
NumberFits(P, r) ==
  IF ValueOf(P, "--orbital_type_" \o r) = "HOMO" THEN Number(P, r).s <= 0 ELSE Number(P, r).s >= 0

(* Does an accepted command line make a run? *)
Runs(fs, P) ==
  /\ \A r \in Roles : PunOf(fs, P, r) # <<>> /\ LogOf(fs, P, r) # <<>>
  /\ NumberFits(P, "1") /\ NumberFits(P, "2")

SameFile(fs, got, want) == Resolve(fs, got) # <<>> /\ Resolve(fs, got) = Resolve(fs, want)
Order == <<"P", "1", "2">>

Shows(fs, P, e) ==
  /\ \A i \in 1..3 : /\ SameFile(fs, e.files[i], PunOf(fs, P, Order[i])[1])
                     /\ SameFile(fs, e.files[3 + i], LogOf(fs, P, Order[i])[1])
                     /\ e.spins[i] = ValueOf(P, "--spin_" \o Order[i])
  /\ \A i \in 1..2 : /\ e.types[i] = ValueOf(P, "--orbital_type_" \o Order[i + 1])
                     /\ IntWord(e.nums[i]) = <<Number(P, Order[i + 1])>>
  /\ e.cp = (IF ValueOf(P, "--counter_poise") \in SwitchOn THEN 1 ELSE 0)

ParamsOk(fs, P, e) ==
  IF Runs(fs, P) THEN e.out = "ok" /\ Shows(fs, P, e) ELSE e.out \in {"throw", "exit"}
=============================================================================
