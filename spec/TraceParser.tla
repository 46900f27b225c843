----------------------------- MODULE TraceParser -----------------------------
(***************************************************************************)
(* Trace validation of the parser with any declared set of options (C19)   *)
(* and of the command line of calc_J (C14 - C17).                          *)
(***************************************************************************)
EXTENDS CalcJArgs, Usage, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, P

Is(op) == l <= Len(Trace) /\ Trace[l].op = op
E == Trace[l]
Refusal == {"throw", "exit"}
Went(e, may) == CASE may = "yes" -> e.out = "ok"
                  [] may = "no" -> e.out \in Refusal
                  [] OTHER -> e.out \in Refusal \cup {"ok"}

NoFiles == [dirs |-> {<<>>, <<"up">>, Here}, files |-> {}]
NoParser == NewParser(<<>>)

Begin == Is("begin") /\ fs' = NoFiles /\ P' = NoParser
Place(p) == Resolve(fs, p)[1]
Dir == Is("dir") /\ fs' = [fs EXCEPT !.dirs = @ \cup {Place(E.path)}] /\ UNCHANGED P
File == Is("file") /\ fs' = [fs EXCEPT !.files = @ \cup {Place(E.path)}] /\ UNCHANGED P
Unlink == Is("unlink") /\ fs' = [fs EXCEPT !.files = @ \ {Place(E.path)}] /\ UNCHANGED P

New ==
  /\ Is("parser")
  /\ LET ok == \A i \in DOMAIN E.flags : DeclOk(E.flags[i]) IN
     /\ Went(E, IF ok THEN "yes" ELSE "no") = TRUE
     /\ P' = IF ok THEN NewParser(E.flags) ELSE NoParser
  /\ UNCHANGED fs

Add ==
  /\ Is("add")
  /\ LET ok == E.arg \in ArgNames /\ KindOf(P, E.flag) # E.arg IN
     /\ Went(E, IF ok THEN "yes" ELSE "no") = TRUE
     /\ P' = IF ok THEN AddArg(P, E.flag, E.arg) ELSE P
  /\ UNCHANGED fs

Set ==
  /\ Is("set")
  /\ LET ok == MaySetArg(E.arg, E.prop, E.opt, E.type, E.val) IN
     /\ Went(E, IF ok THEN "yes" ELSE "no") = TRUE
     /\ P' = IF ok THEN SetRule(P, E.flag, E.arg, E.prop, E.opt, E.val) ELSE P
  /\ UNCHANGED fs

OptOk(e) ==
  IF \/ KindOf(P, e.flag) # e.arg \/ KindOf(P, e.flag) = "none"
     \/ e.prop \notin RulesOf(e.arg)
  THEN e.out \in Refusal
  ELSE IF e.opt \notin Options(e.prop) THEN e.out \in Refusal
  ELSE /\ e.out = "ok"
       /\ Given(P.arg[e.flag][e.prop], e.opt) => SameLine(e.prop, e.val, Setting(P.arg[e.flag][e.prop], e.opt))
Opt == Is("opt") /\ OptOk(E) = TRUE /\ UNCHANGED <<P, fs>>

Def == Is("default") /\ E.out = "ok" /\ P' = Default(P, E.flag, E.w) /\ UNCHANGED fs

(* The texts asked for are printed, and no others; a line that is refused  *)
(* may end before.                                                         *)
PrintedOk(e, r) ==
  LET shown == {e.printed[i] : i \in DOMAIN e.printed} IN
  /\ e.out \in {"ok", "exit0"} => shown = r.printed
  /\ e.args = <<>> => "usage" \in shown

ParseOk(e, r) ==
  /\ CASE r.out = "ok" -> e.out = "ok"
       [] r.out = "no" -> e.out \in Refusal
       [] r.out = "exit0" -> e.out = "exit0"
       [] r.out = "any" -> e.out \in Refusal \cup {"ok"}
  /\ PrintedOk(e, r)
DoParse ==
  /\ Is("parse")
  /\ LET r == Parse(fs, P, E.args) IN
     /\ ParseOk(E, r) = TRUE
     /\ P' = IF E.out = "ok" THEN r.P ELSE r.spoiled
  /\ UNCHANGED fs

GetOk(e) ==
  /\ Went(e, Has(P, e.flag))
  /\ e.out = "ok" /\ Has(P, e.flag) = "yes" =>
       Reads(IF KindOf(P, e.flag) = "ARGUMENT_SWITCH" THEN "switch" ELSE e.type, e.val, P.val[e.flag].w)
Get == Is("get") /\ GetOk(E) = TRUE /\ UNCHANGED <<P, fs>>

Post == Is("post") /\ Went(E, Finally(P)) = TRUE /\ UNCHANGED <<P, fs>>

(* The list of the options, asked for or printed by a parse. *)
ListOk(e) ==
  /\ CASE e.how = "show" -> e.out = "ok" [] e.how = "empty" -> e.out \in Refusal [] e.how = "help" -> e.out = "exit0"
  /\ UsageOk(IF e.own THEN CalcJParser.decl ELSE P.decl, e.lines)
List == Is("usage") /\ ListOk(E) = TRUE /\ UNCHANGED <<P, fs>>

(* A whole command line of calc_J. *)
LineOk(e) ==
  LET r == Parse(fs, CalcJParser, e.args) IN
  /\ CASE r.out = "ok" -> ParamsOk(fs, r.P, e)
       [] r.out = "no" -> e.out \in Refusal
       [] r.out = "exit0" -> e.out = "exit0"
  /\ PrintedOk(e, r)
Line == Is("line") /\ LineOk(E) = TRUE /\ UNCHANGED <<P, fs>>

Init == l = 1 /\ fs = NoFiles /\ P = NoParser
Next == /\ \/ Begin \/ Dir \/ File \/ Unlink \/ New \/ Add \/ Set \/ Opt \/ Def \/ DoParse \/ Get
           \/ Post \/ Line \/ List
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, fs, P>>

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
