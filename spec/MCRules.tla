------------------------------- MODULE MCRules -------------------------------
(***************************************************************************)
(* Every history of a rule over small sets of settings and values.  The    *)
(* rule of ArgRules is compared with what the history alone says: the      *)
(* settings are the last ones that were taken, and a value is accepted     *)
(* exactly when it satisfies them (written down here for integers, sets    *)
(* of words and sets of files).                                            *)
(***************************************************************************)
EXTENDS ArgRules, Json, CSV, IOUtils

CONSTANTS MaxOps, Big

VARIABLES x, hist
vars == <<x, hist>>

Files == [dirs |-> {<<>>, <<"up">>, Here, Here \o <<"d.x">>},
          files |-> {Here \o <<"a.pun">>, Here \o <<"d.x", "b.log">>, Here \o <<"d.x", "b.pun">>, Here \o <<"c">>}]

Ints == {-2, -1, 0, 1, 2}
IntWords == {ToString(i) : i \in Ints} \cup {"007", "-0"}
IntOf(s) == CASE s = "007" -> 7 [] s = "-0" -> 0 [] OTHER -> CHOOSE i \in Ints : ToString(i) = s

Sets(r) ==
  CASE r \in {"PROPERTY_INT", "PROPERTY_DOUBLE"} ->
         {<<o, <<v>>>> : o \in {"MIN", "MAX", "LIMIT"}, v \in {"-1", "0", "1"} \cup (IF Big THEN {"2"} ELSE {})}
    [] r = "PROPERTY_STRING" ->
         {<<o, <<v>>>> : o \in {"MIN_LENGTH", "MAX_LENGTH", "LENGTH"}, v \in {"0", "1", "2"}}
    [] r = "PROPERTY_STRING_CHOICE" ->
         {<<"STRING_CHOICE_ENFORCED", v>> : v \in {<<"true">>, <<"false">>, <<"maybe">>, <<"true", "false">>}}
         \cup {<<"STRING_CHOICES", v>> : v \in {<<"a">>, <<"b", "">>, <<"ab", "a">>}}
         \cup {<<"CHOICES", <<"a">>>>}
    [] r = "PROPERTY_SWITCH" -> {<<"DEFAULT", <<"ON">>>>, <<"DEFAULT", <<"OFF">>>>, <<"VALUE", <<"ON">>>>}
    [] r = "PROPERTY_FILE_EXIST" ->
         {<<"FILE_MUST_EXIST", <<"0">>>>, <<"FILE_MUST_EXIST", <<"1">>>>, <<"MUST_EXIST", <<"1">>>>}
    [] r = "PROPERTY_FILE_EXT" ->
         {<<"ALLOWED_FILE_EXT", v>> : v \in {<<".pun">>, <<".log", ".7">>, <<"*">>, <<"">>, <<"pun">>, <<"a.pun">>,
                                            <<".log", "7">>}}
         \cup {<<"FILE_EXT", <<".log">>>>}
    [] r = "PROPERTY_SISTER_FILE" ->
         {<<"ALLOWED_SISTER_FILE_EXT", v>> : v \in {<<".pun">>, <<".log", ".pun">>, <<"x.log">>, <<".a", "b">>}}
         \cup {<<"SISTER_FILE_NAME", <<"a.pun">>>>, <<"SISTER_FILE_EXISTS", <<"true">>>>,
               <<"SISTER_FILE_EXT", <<".pun">>>>}

Words(r) ==
  CASE r = "PROPERTY_INT" -> IntWords
    [] r = "PROPERTY_DOUBLE" -> IntWords \cup {"0.5", "-1.001", "1e0", "10e-1", "0.9999", "nan"}
    [] r = "PROPERTY_STRING" -> {"", "a", "ab", "abc", " "}
    [] r = "PROPERTY_STRING_CHOICE" -> {"a", "b", "ab", "", "A", "NOT_DEFINED"}
    [] r = "PROPERTY_SWITCH" -> SwitchWords \cup {"on", "", "2", "ONE", "-1"}
    [] OTHER -> {"a.pun", "d.x/b.log", "d.x/b.7", "c", "d.x/e", "./a.pun", "pun", ".pun", "d.x/../a.pun", "a.pun.log"}

Op(k, o, v) == [k |-> k, o |-> o, v |-> v]

Init == \E r \in RuleNames : x = Fresh(r) /\ hist = <<>>

DoSet(o, v) ==
  /\ x' = IF MaySet(x.rule, o, v) THEN Put(x, o, v) ELSE x
  /\ hist' = Append(hist, Op("set", o, v))
DoValid(w) ==
  /\ x' = IF Satisfies(Files, x, w) = "yes" THEN Supplied(Files, x, w) ELSE Disturbed(x)
  /\ hist' = Append(hist, Op("valid", "", <<w>>))

Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Sets(x.rule) : DoSet(s[1], s[2])
           \/ \E w \in Words(x.rule) : DoValid(w)
Spec == Init /\ [][Next]_vars

(* What the history says. *)
Taken(o) == {i \in DOMAIN hist : hist[i].k = "set" /\ hist[i].o = o /\ MaySet(x.rule, o, hist[i].v)}
LastTaken(o) == hist[MaxOf(Taken(o))].v
Settable == CASE x.rule = "PROPERTY_FILE_EXIST" -> {"FILE_MUST_EXIST"}
              [] x.rule = "PROPERTY_SISTER_FILE" -> {"ALLOWED_SISTER_FILE_EXT"}
              [] OTHER -> Options(x.rule)

ReadsBack ==
  \A o \in Settable :
    IF Taken(o) = {} THEN x.set[o] = <<>> ELSE x.set[o] = <<LastTaken(o)>>

(* Nothing outside of the options, nothing malformed is ever taken. *)
Refuses ==
  \A i \in DOMAIN hist :
    hist[i].k = "set" /\ MaySet(x.rule, hist[i].o, hist[i].v) =>
      /\ hist[i].o \in Settable
      /\ hist[i].v \notin {<<"pun">>, <<"a.pun">>, <<".log", "7">>, <<"x.log">>, <<".a", "b">>, <<"maybe">>, <<"true", "false">>}

Accepts ==
  CASE x.rule = "PROPERTY_INT" ->
         \A w \in IntWords :
           (Satisfies(Files, x, w) = "yes") =
           /\ Taken("MIN") # {} => IntOf(w) >= IntOf(LastTaken("MIN")[1])
           /\ Taken("MAX") # {} => IntOf(w) <= IntOf(LastTaken("MAX")[1])
    [] x.rule = "PROPERTY_DOUBLE" ->
         /\ \A w \in IntWords :
              (Satisfies(Files, x, w) = "yes") =
              /\ Taken("MIN") # {} => IntOf(w) >= IntOf(LastTaken("MIN")[1])
              /\ Taken("MAX") # {} => IntOf(w) <= IntOf(LastTaken("MAX")[1])
         /\ Satisfies(Files, x, "nan") = "no"
         /\ Satisfies(Files, x, "1e0") = Satisfies(Files, x, "1")
         /\ Satisfies(Files, x, "0.5") = "yes" /\ Satisfies(Files, x, "2") = "yes" => Satisfies(Files, x, "1") = "yes"
    [] x.rule = "PROPERTY_STRING" ->
         \A w \in Words(x.rule) :
           (Satisfies(Files, x, w) = "yes") =
           (Len(w) \in (IF Taken("MIN_LENGTH") = {} THEN 0 ELSE IntOf(LastTaken("MIN_LENGTH")[1]))
                      ..(IF Taken("MAX_LENGTH") = {} THEN 99 ELSE IntOf(LastTaken("MAX_LENGTH")[1])))
    [] x.rule = "PROPERTY_STRING_CHOICE" ->
         \A w \in Words(x.rule) :
           IF Taken("STRING_CHOICE_ENFORCED") # {} /\ LastTaken("STRING_CHOICE_ENFORCED") = <<"true">>
           THEN Taken("STRING_CHOICES") # {} =>
                  (Satisfies(Files, x, w) = "yes") = \E i \in DOMAIN LastTaken("STRING_CHOICES") : LastTaken("STRING_CHOICES")[i] = w
           ELSE Satisfies(Files, x, w) = "yes"
    [] x.rule = "PROPERTY_FILE_EXIST" ->
         LET must == Taken("FILE_MUST_EXIST") # {} /\ LastTaken("FILE_MUST_EXIST") = <<"1">>
             there == {"a.pun", "d.x/b.log", "c", "./a.pun", "d.x/../a.pun"} IN
         /\ \A w \in Words(x.rule) : (Satisfies(Files, x, w) = "yes") = (must => w \in there)
         /\ (\A i \in DOMAIN hist : hist[i].k = "valid" => hist[i].v[1] \notin there) /\ must =>
              Final(x) # "yes"
         /\ hist = <<>> => Final(x) = "yes"
    [] x.rule = "PROPERTY_FILE_EXT" ->
         /\ Taken("ALLOWED_FILE_EXT") # {} =>
              LET s == SetOf(LastTaken("ALLOWED_FILE_EXT")) IN
              /\ (Satisfies(Files, x, "a.pun") = "yes") = (s \cap {".pun", "*"} # {})
              /\ (Satisfies(Files, x, "d.x/e") = "yes") = (s \cap {"", "*"} # {})
              /\ (Satisfies(Files, x, "a.pun.log") = "yes") = (s \cap {".log", "*"} # {})
    [] OTHER -> TRUE

Emit ==
  "EMIT" \in DOMAIN IOEnv /\ Len(hist) = MaxOps =>
    CSVWrite("%1$s", <<ToJson([rule |-> x.rule, hist |-> hist])>>, IOEnv.EMIT)
=============================================================================
