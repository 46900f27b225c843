------------------------------ MODULE ArgRules ------------------------------
(***************************************************************************)
(* The rules that values of options have to satisfy (properties), and the   *)
(* arguments that combine them, and how they are set.                      *)
(*                                                                         *)
(* A rule's settings are <<>> (as it was created; what it reads back then  *)
(* is not specified) or <<list of words>>.                                 *)
(***************************************************************************)
EXTENDS Text, TLC

RuleNames == {"PROPERTY_INT", "PROPERTY_DOUBLE", "PROPERTY_STRING", "PROPERTY_STRING_CHOICE",
              "PROPERTY_SWITCH", "PROPERTY_FILE_EXIST", "PROPERTY_FILE_EXT", "PROPERTY_SISTER_FILE"}

Options(r) ==
  CASE r \in {"PROPERTY_INT", "PROPERTY_DOUBLE"} -> {"MIN", "MAX"}
    [] r = "PROPERTY_STRING" -> {"MIN_LENGTH", "MAX_LENGTH"}
    [] r = "PROPERTY_STRING_CHOICE" -> {"STRING_CHOICE_ENFORCED", "STRING_CHOICES"}
    [] r = "PROPERTY_SWITCH" -> {"DEFAULT"}
    [] r = "PROPERTY_FILE_EXIST" -> {"FILE_MUST_EXIST", "FILE_DOES_EXIST"}
    [] r = "PROPERTY_FILE_EXT" -> {"ALLOWED_FILE_EXT"}
    [] r = "PROPERTY_SISTER_FILE" ->
         {"ALLOWED_SISTER_FILE_EXT", "SISTER_FILE_NAME", "SISTER_FILE_PATH",
          "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS"}

(* Which kinds of values a rule can be set to. *)
Type(r) ==
  CASE r \in {"PROPERTY_INT", "PROPERTY_FILE_EXIST"} -> {"int"}
    [] r = "PROPERTY_DOUBLE" -> {"double"}
    [] r = "PROPERTY_STRING" -> {"int", "size"}
    [] r \in {"PROPERTY_STRING_CHOICE", "PROPERTY_FILE_EXT"} -> {"set", "string"}
    [] r = "PROPERTY_SISTER_FILE" -> {"vector", "string"}
    [] r = "PROPERTY_SWITCH" -> {"string"}

(* The rules an argument consists of, in no particular order. *)
RulesOf(a) ==
  CASE a = "ARGUMENT_INT" -> {"PROPERTY_INT"}
    [] a = "ARGUMENT_DOUBLE" -> {"PROPERTY_DOUBLE"}
    [] a = "ARGUMENT_STRING" -> {"PROPERTY_STRING", "PROPERTY_STRING_CHOICE"}
    [] a = "ARGUMENT_SWITCH" -> {"PROPERTY_SWITCH"}
    [] a = "ARGUMENT_FILE" -> {"PROPERTY_FILE_EXIST", "PROPERTY_FILE_EXT", "PROPERTY_SISTER_FILE"}
ArgNames == {"ARGUMENT_INT", "ARGUMENT_DOUBLE", "ARGUMENT_STRING", "ARGUMENT_SWITCH", "ARGUMENT_FILE"}

IsExt(e) == Starts(e, ".") /\ Cardinality(Positions(e, ".")) = 1
SetOf(s) == {s[i] : i \in DOMAIN s}

(* May option o of rule r be set to the list of words v?                   *)
MaySet(r, o, v) ==
  /\ o \in Options(r)
  /\ CASE r = "PROPERTY_FILE_EXT" -> \A e \in SetOf(v) : e \in {"", "*"} \/ IsExt(e)
       [] r = "PROPERTY_SISTER_FILE" -> o = "ALLOWED_SISTER_FILE_EXT" /\ \A e \in SetOf(v) : IsExt(e)
       [] o = "STRING_CHOICE_ENFORCED" -> Len(v) = 1 /\ v[1] \in {"true", "false"}
       [] r = "PROPERTY_STRING" -> Sign(v[1]) = 1
       [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* A rule object: its settings, and whether an existing file was supplied. *)
Fresh(r) == [rule |-> r, set |-> [o \in Options(r) |-> <<>>], seen |-> "no"]

Put(x, o, v) == [x EXCEPT !.set[o] = <<v>>]
Given(x, o) == x.set[o] # <<>>
Setting(x, o) == x.set[o][1]
Flag(x, o) == Given(x, o) /\ Setting(x, o)[1] = "1"

SwitchWords == {"0", "1", "ON", "OFF", "TRUE", "FALSE"}
SwitchOn == {"1", "ON", "TRUE"}

InLimits(x, n) ==
  /\ n # <<>>
  /\ Given(x, "MIN") => ~NumLess(n[1], DecWord(Setting(x, "MIN")[1])[1])
  /\ Given(x, "MAX") => ~NumLess(DecWord(Setting(x, "MAX")[1])[1], n[1])

(* Does the value w satisfy the rule?  "any": not specified.               *)
Satisfies(fs, x, w) ==
  LET r == x.rule
      b(c) == IF c THEN "yes" ELSE "no" IN
  CASE r = "PROPERTY_INT" ->
         LET n == IntWord(w) IN b(InLimits(x, n) /\ Within(n[1], IntMin, IntMax))
    [] r = "PROPERTY_DOUBLE" ->
         LET n == DecWord(w) IN b(InLimits(x, n) /\ Within(n[1], DecMin, DecMax))
    [] r = "PROPERTY_STRING" ->
         LET n == IntWord(ToString(Len(w)))[1] IN
         b(/\ Given(x, "MIN_LENGTH") => ~NumLess(n, IntWord(Setting(x, "MIN_LENGTH")[1])[1])
           /\ Given(x, "MAX_LENGTH") => ~NumLess(IntWord(Setting(x, "MAX_LENGTH")[1])[1], n))
    [] r = "PROPERTY_STRING_CHOICE" ->
         IF ~Given(x, "STRING_CHOICE_ENFORCED") \/ Setting(x, "STRING_CHOICE_ENFORCED") = <<"false">> THEN "yes"
         ELSE IF ~Given(x, "STRING_CHOICES") THEN "any"
         ELSE b(w \in SetOf(Setting(x, "STRING_CHOICES")))
    [] r = "PROPERTY_SWITCH" -> b(w \in SwitchWords)
    [] r = "PROPERTY_FILE_EXIST" -> b(Flag(x, "FILE_MUST_EXIST") => Exists(fs, w))
    [] r = "PROPERTY_FILE_EXT" ->
         IF ~Given(x, "ALLOWED_FILE_EXT") THEN "yes"
         ELSE b("*" \in SetOf(Setting(x, "ALLOWED_FILE_EXT")) \/ ExtOf(w) \in SetOf(Setting(x, "ALLOWED_FILE_EXT")))
    [] r = "PROPERTY_SISTER_FILE" -> "yes"

(* The rule after a value was refused by it or by another rule of the same *)
(* argument: what it has found out about that value is not specified.      *)
Disturbed(x) ==
  CASE x.rule = "PROPERTY_FILE_EXIST" ->
         [x EXCEPT !.set["FILE_DOES_EXIST"] = <<>>, !.seen = "any"]
    [] x.rule = "PROPERTY_SISTER_FILE" ->
         [x EXCEPT !.set = [o \in Options(x.rule) |->
            IF o = "ALLOWED_SISTER_FILE_EXT" THEN x.set[o] ELSE <<>>]]
    [] OTHER -> x

(* The rule after the value w was accepted. *)
Supplied(fs, x, w) ==
  CASE x.rule = "PROPERTY_FILE_EXIST" ->
         IF Exists(fs, w) THEN [Put(x, "FILE_DOES_EXIST", <<"1">>) EXCEPT !.seen = "yes"]
         ELSE [Put(x, "FILE_DOES_EXIST", <<"0">>) EXCEPT !.seen = IF x.seen = "no" THEN "no" ELSE "any"]
    [] x.rule = "PROPERTY_SISTER_FILE" ->
         IF ~Given(x, "ALLOWED_SISTER_FILE_EXT") THEN Disturbed(x)
         ELSE LET es == Setting(x, "ALLOWED_SISTER_FILE_EXT")
                  list(F(_)) == [i \in DOMAIN es |-> F(es[i])]
                  name(e) == CoreOf(w) \o e
                  path(e) == DirOf(w)
                  both(e) == Sister(w, e)
                  is(e) == IF Exists(fs, Sister(w, e)) THEN "true" ELSE "false" IN
              Put(Put(Put(Put(x, "SISTER_FILE_NAME", list(name)), "SISTER_FILE_PATH", list(path)),
                      "SISTER_FILE_PATH_NAME", list(both)), "SISTER_FILE_EXISTS", list(is))
    [] OTHER -> x

(* The final check. *)
Final(x) ==
  IF x.rule # "PROPERTY_FILE_EXIST" \/ ~Flag(x, "FILE_MUST_EXIST") \/ x.seen = "yes" THEN "yes"
  ELSE x.seen

-----------------------------------------------------------------------------
(* An argument: rule name |-> rule object *)
FreshArg(a) == [r \in RulesOf(a) |-> Fresh(r)]

ArgSatisfies(fs, arg, w) ==
  LET vs == {Satisfies(fs, arg[r], w) : r \in DOMAIN arg} IN
  IF "no" \in vs THEN "no" ELSE IF "any" \in vs THEN "any" ELSE "yes"
ArgSupplied(fs, arg, w) == [r \in DOMAIN arg |-> Supplied(fs, arg[r], w)]
ArgDisturbed(arg) == [r \in DOMAIN arg |-> Disturbed(arg[r])]
ArgFinal(arg) ==
  LET vs == {Final(arg[r]) : r \in DOMAIN arg} IN
  IF "no" \in vs THEN "no" ELSE IF "any" \in vs THEN "any" ELSE "yes"

(* Is the setting refused, taken, or not specified?                        *)
MaySetArg(a, r, o, type, v) ==
  /\ r \in RulesOf(a)
  /\ type \in Type(r)
  /\ MaySet(r, o, v)
-----------------------------------------------------------------------------
(* Does a setting that reads back as got (a list of words; from an          *)
(* argument: one line) have the value v?                                   *)
Same(r, got, v) ==
  CASE r \in {"PROPERTY_INT", "PROPERTY_FILE_EXIST", "PROPERTY_STRING"} ->
         Len(got) = 1 /\ IntWord(got[1]) # <<>> /\ IntWord(got[1]) = IntWord(v[1])
    [] r = "PROPERTY_DOUBLE" -> Len(got) = 1 /\ DecWord(got[1]) # <<>> /\ DecWord(got[1]) = DecWord(v[1])
    [] r \in {"PROPERTY_STRING_CHOICE", "PROPERTY_FILE_EXT"} -> SetOf(got) = SetOf(v)
    [] OTHER -> got = v

(* Lists read back as one line. *)
RECURSIVE Joined(_)
Joined(v) == IF Len(v) = 0 THEN "" ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o " " \o Joined(Tail(v))
NotEmpty(v) == SelectSeq(v, LAMBDA w : w # "")
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<a>> \o o : o \in Orders(S \ {a})} : a \in S}
SameLine(r, got, v) ==
  CASE r \in {"PROPERTY_STRING_CHOICE", "PROPERTY_FILE_EXT"} ->
         \E o \in Orders(SetOf(v) \ {""}) : Joined(o) = got
    [] r = "PROPERTY_SISTER_FILE" -> got = Joined(NotEmpty(v))
    [] OTHER -> Same(r, <<got>>, v)

=============================================================================
