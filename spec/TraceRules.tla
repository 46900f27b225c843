----------------------------- MODULE TraceRules -----------------------------
(***************************************************************************)
(* Trace validation of single rules and of arguments (C18).                *)
(***************************************************************************)
EXTENDS ArgRules, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, x, arg, name

Is(op) == l <= Len(Trace) /\ Trace[l].op = op
Refusal == {"throw", "exit"}
Went(e, may) == CASE may = "yes" -> e.out = "ok"
                  [] may = "no" -> e.out \in Refusal
                  [] OTHER -> e.out \in Refusal \cup {"ok"}

Distinct(s) == Cardinality(SetOf(s)) = Len(s)

NoFiles == [dirs |-> {<<>>, <<"up">>, Here}, files |-> {}]
None == Fresh("PROPERTY_SWITCH")
NoArg == FreshArg("ARGUMENT_SWITCH")

Begin == Is("begin") /\ fs' = NoFiles /\ x' = None /\ arg' = NoArg /\ name' = ""
Place(p) == Here \o Components(p)
Dir == Is("dir") /\ fs' = [fs EXCEPT !.dirs = @ \cup {Place(Trace[l].path)}] /\ UNCHANGED <<x, arg, name>>
File == Is("file") /\ fs' = [fs EXCEPT !.files = @ \cup {Place(Trace[l].path)}] /\ UNCHANGED <<x, arg, name>>
Unlink == Is("unlink") /\ fs' = [fs EXCEPT !.files = @ \ {Place(Trace[l].path)}] /\ UNCHANGED <<x, arg, name>>

(* ---- a rule *)
(* Created with the settings given to the constructor. *)
CtorOption(r) == CASE r = "PROPERTY_FILE_EXT" -> "ALLOWED_FILE_EXT"
                   [] r = "PROPERTY_FILE_EXIST" -> "FILE_MUST_EXIST"
RuleOk(e) ==
  IF e.val = <<>> THEN e.out = "ok"
  ELSE Went(e, IF MaySet(e.rule, CtorOption(e.rule), e.val) THEN "yes" ELSE "no")
Rule ==
  /\ Is("rule") /\ RuleOk(Trace[l]) = TRUE
  /\ x' = (LET e == Trace[l] IN
           IF e.out # "ok" THEN None
           ELSE IF e.val = <<>> THEN Fresh(e.rule) ELSE Put(Fresh(e.rule), CtorOption(e.rule), e.val))
  /\ UNCHANGED <<fs, arg, name>>

RSet ==
  /\ Is("rset")
  /\ Went(Trace[l], IF MaySet(x.rule, Trace[l].opt, Trace[l].val) THEN "yes" ELSE "no") = TRUE
  /\ x' = IF Trace[l].out = "ok" THEN Put(x, Trace[l].opt, Trace[l].val) ELSE x
  /\ UNCHANGED <<fs, arg, name>>

RGetOk(e) ==
  IF e.opt \notin Options(x.rule) THEN e.out \in Refusal
  ELSE e.out = "ok" /\ (Given(x, e.opt) => Same(x.rule, e.val, Setting(x, e.opt)))
RGet ==
  /\ Is("rget") /\ RGetOk(Trace[l]) = TRUE
  /\ x' = IF Trace[l].out = "ok" /\ Trace[l].opt # "ALLOWED_SISTER_FILE_EXT"
          THEN Put(x, Trace[l].opt, Trace[l].val) ELSE x
  /\ UNCHANGED <<fs, arg, name>>

RValid ==
  /\ Is("rvalid") /\ Went(Trace[l], Satisfies(fs, x, Trace[l].w)) = TRUE
  /\ x' = IF Trace[l].out = "ok" THEN Supplied(fs, x, Trace[l].w) ELSE Disturbed(x)
  /\ UNCHANGED <<fs, arg, name>>

RNamesOk(e) == e.out = "ok" /\ e.name = x.rule /\ SetOf(e.opts) = Options(x.rule) /\ Distinct(e.opts)
RNames == Is("rnames") /\ RNamesOk(Trace[l]) = TRUE /\ UNCHANGED <<fs, x, arg, name>>

RPost == Is("rpost") /\ Went(Trace[l], Final(x)) = TRUE /\ UNCHANGED <<x, fs, arg, name>>

(* ---- an argument *)
Arg == Is("arg") /\ Trace[l].out = "ok" /\ arg' = FreshArg(Trace[l].arg) /\ name' = Trace[l].arg
       /\ UNCHANGED <<fs, x>>

ASet ==
  /\ Is("aset")
  /\ Went(Trace[l], IF MaySetArg(name, Trace[l].prop, Trace[l].opt, Trace[l].type, Trace[l].val)
                    THEN "yes" ELSE "no") = TRUE
  /\ arg' = IF Trace[l].out = "ok"
            THEN [arg EXCEPT ![Trace[l].prop] = Put(@, Trace[l].opt, Trace[l].val)] ELSE arg
  /\ UNCHANGED <<fs, x, name>>

AGetOk(e) ==
  IF e.prop \notin RulesOf(name) THEN e.out \in Refusal
  ELSE IF e.opt \notin Options(e.prop) THEN e.out \in Refusal
  ELSE e.out = "ok" /\ (Given(arg[e.prop], e.opt) => SameLine(e.prop, e.val, Setting(arg[e.prop], e.opt)))
AGet == Is("aget") /\ AGetOk(Trace[l]) = TRUE /\ UNCHANGED <<x, fs, arg, name>>

(* What it is called and consists of; a switch takes no parameter. *)
ANamesOk(e) ==
  /\ e.out = "ok" /\ e.name = name
  /\ SetOf(e.rules) = RulesOf(name) /\ Distinct(e.rules)
  /\ SetOf(e.opts) = UNION {Options(r) : r \in RulesOf(name)} /\ Distinct(e.opts)
  /\ e.takes = (IF name = "ARGUMENT_SWITCH" THEN 0 ELSE 1)
ANames == Is("anames") /\ ANamesOk(Trace[l]) = TRUE /\ UNCHANGED <<x, fs, arg, name>>

(* All values at once. *)
AValuesOk(e) ==
  /\ e.out = "ok"
  /\ SetOf(e.opts) = UNION {Options(r) : r \in RulesOf(name)}
  /\ \A r \in RulesOf(name) : \A i \in DOMAIN e.opts :
       e.opts[i] \in Options(r) /\ ~Starts(e.opts[i], "SISTER") /\ Given(arg[r], e.opts[i]) =>
         SameLine(r, e.vals[i], Setting(arg[r], e.opts[i]))
AValues == Is("avalues") /\ AValuesOk(Trace[l]) = TRUE /\ UNCHANGED <<x, fs, arg, name>>

AValid ==
  /\ Is("avalid") /\ Went(Trace[l], ArgSatisfies(fs, arg, Trace[l].w)) = TRUE
  /\ arg' = IF Trace[l].out = "ok" THEN ArgSupplied(fs, arg, Trace[l].w) ELSE ArgDisturbed(arg)
  /\ UNCHANGED <<fs, x, name>>

APost == Is("apost") /\ Went(Trace[l], ArgFinal(arg)) = TRUE /\ UNCHANGED <<x, fs, arg, name>>

(* A switch given as a number or as a word: refused, or on or off. *)
SwitchOk(e, words) ==
  IF e.w \in words THEN e.out = "ok" /\ e.on = (IF e.w \in SwitchOn THEN 1 ELSE 0) ELSE e.out \in Refusal
SwNum == Is("swnum") /\ SwitchOk(Trace[l], {"0", "1"}) = TRUE /\ UNCHANGED <<x, fs, arg, name>>
SwOn == Is("swon") /\ SwitchOk(Trace[l], SwitchWords) = TRUE /\ UNCHANGED <<x, fs, arg, name>>

Init == l = 1 /\ fs = NoFiles /\ x = None /\ arg = NoArg /\ name = ""
Next == /\ \/ Begin \/ Dir \/ File \/ Unlink \/ Rule \/ RSet \/ RGet \/ RNames \/ RValid \/ RPost
           \/ Arg \/ ASet \/ AGet \/ ANames \/ AValues \/ AValid \/ APost \/ SwNum \/ SwOn
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, fs, x, arg, name>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
