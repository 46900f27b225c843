------------------------------- MODULE CmdLine -------------------------------
(***************************************************************************)
(* A parser of command lines for a declared set of options.                *)
(*                                                                         *)
(* A parser P consists of                                                  *)
(*   decl   sequence of [name, short, desc]; short is "" if there is none, *)
(*          desc is <<>> or <<text>>                                       *)
(*   kind   name |-> ARGUMENT_... or "none"                                *)
(*   arg    name |-> the argument's rules                                  *)
(*   val    name |-> [k |-> "none"], [k |-> "is", w |-> word], or          *)
(*                   [k |-> "any"] (not specified)                         *)
(***************************************************************************)
EXTENDS ArgRules

HelpWords == {"--help", "-h"}
CiteWords == {"--citation", "-cite"}
VersionWords(P) ==
  ({"--version", "-version"} \cup {P.decl[i].short : i \in {j \in DOMAIN P.decl : P.decl[j].name = "--version"}}) \ {""}

None == [k |-> "none", w |-> ""]
Unknown == [k |-> "any", w |-> ""]
Value(w) == [k |-> "is", w |-> w]

(* The declaration of an option is a list of up to three texts.            *)
IsLong(w) == Starts(w, "--")
IsShort(w) == Starts(w, "-") /\ ~IsLong(w)
Many(f, C(_)) == Cardinality({i \in DOMAIN f : C(f[i])})
IsText(w) == ~IsLong(w) /\ ~IsShort(w)
(* Blanks around a word of a declaration do not count. *)
Trimmed(w) ==
  LET S == {i \in 1..Len(w) : Char(w, i) # " "} IN
  IF S = {} THEN "" ELSE SubSeq(w, MinOf(S), MaxOf(S))
AllTrimmed(f) == [i \in DOMAIN f |-> Trimmed(f[i])]
DeclOk(g) ==
  LET f == AllTrimmed(g) IN Many(f, IsLong) = 1 /\ Many(f, IsShort) <= 1 /\ Many(f, IsText) <= 1
WordOf(f, C(_)) ==
  LET S == {i \in DOMAIN f : C(f[i])} IN IF S = {} THEN "" ELSE f[CHOOSE i \in S : TRUE]
Declaration(f) ==
  [name |-> WordOf(f, IsLong), short |-> WordOf(f, IsShort),
   desc |-> IF Many(f, IsText) = 0 THEN <<>> ELSE <<WordOf(f, IsText)>>]
Declared(flags) ==
  [i \in 1..(Len(flags) + 1) |->
     Declaration(IF i > Len(flags) THEN <<"--help", "-h", "Display help message">> ELSE AllTrimmed(flags[i]))]

NewParser(flags) ==
  LET d == Declared(flags)
      names == {d[i].name : i \in DOMAIN d} IN
  [decl |-> d, kind |-> [n \in names |-> "none"], arg |-> [n \in names |-> <<>>],
   val |-> [n \in names |-> None]]

Extend(f, n, v) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN v ELSE f[m]]
Known(P, n) == n \in DOMAIN P.kind
KindOf(P, n) == IF Known(P, n) THEN P.kind[n] ELSE "none"

AddArg(P, n, a) ==
  [P EXCEPT !.kind = Extend(@, n, a), !.arg = Extend(@, n, FreshArg(a)),
            !.val = IF Known(P, n) THEN @ ELSE Extend(@, n, None)]

(* Setting a rule gives the option its argument at the same time. *)
SetRule(P, n, a, r, o, v) ==
  LET Q == IF KindOf(P, n) = a THEN P ELSE AddArg(P, n, a) IN
  [Q EXCEPT !.arg[n][r] = Put(@, o, v)]

Default(P, n, w) ==
  IF Known(P, n) THEN [P EXCEPT !.val[n] = Value(w)]
  ELSE [P EXCEPT !.val = Extend(@, n, Value(w)), !.kind = Extend(@, n, "none"), !.arg = Extend(@, n, <<>>)]

-----------------------------------------------------------------------------
IsFlag(P, w) == \E i \in DOMAIN P.decl : P.decl[i].name = w \/ (P.decl[i].short = w /\ w # "")
(* The option a word stands for: <<>> or <<name>>. *)
OptionOf(P, w) ==
  IF \E i \in DOMAIN P.decl : P.decl[i].name = w THEN <<w>>
  ELSE LET S == {i \in DOMAIN P.decl : P.decl[i].short = w /\ w # ""} IN
       IF S # {} THEN <<P.decl[CHOOSE i \in S : TRUE].name>>
       ELSE IF Known(P, w) THEN <<w>> ELSE <<>>

(* Running state of a parse; out: "go", "ok", "no", "any" or "exit0"       *)
Start(P) == [P |-> P, out |-> "go", touched |-> {}, printed |-> {}, helps |-> 0]

(* The value w is given to option n. *)
Give(fs, st, n, w) ==
  LET P == st.P
      s == ArgSatisfies(fs, P.arg[n], w) IN
  IF s = "yes"
  THEN [st EXCEPT !.P.val[n] = Value(w), !.P.arg[n] = ArgSupplied(fs, @, w), !.touched = @ \cup {n}]
  ELSE [st EXCEPT !.out = s, !.touched = @ \cup {n}]

RECURSIVE Walk(_, _, _, _)
Walk(fs, args, i, st) ==
  LET P == st.P IN
  IF st.out # "go" THEN st
  ELSE IF i > Len(args) THEN [st EXCEPT !.out = "ok"]
  ELSE LET w == args[i] IN
  IF w \in HelpWords \cup CiteWords THEN
    LET st2 == [st EXCEPT !.helps = @ + 1,
                          !.printed = @ \cup {IF w \in HelpWords THEN "usage" ELSE "citation"}] IN
    IF st2.helps = Len(args) THEN [st2 EXCEPT !.out = "exit0"] ELSE Walk(fs, args, i + 1, st2)
  ELSE IF w \in VersionWords(P) THEN [st EXCEPT !.out = "exit0"]
  ELSE LET o == OptionOf(P, w) IN
  IF o = <<>> \/ KindOf(P, o[1]) = "none" THEN [st EXCEPT !.out = "no"]
  ELSE LET n == o[1] IN
  IF P.kind[n] = "ARGUMENT_SWITCH" THEN
    IF i = Len(args) \/ IsFlag(P, args[i + 1])
    THEN Walk(fs, args, i + 1, Give(fs, st, n, "ON"))
    ELSE Walk(fs, args, i + 2, Give(fs, st, n, args[i + 1]))
  ELSE IF i = Len(args) THEN [st EXCEPT !.out = "no", !.touched = @ \cup {n}]
  ELSE Walk(fs, args, i + 2, Give(fs, st, n, args[i + 1]))

(* What every argument says at the end. *)
Finally(P) ==
  LET vs == {ArgFinal(P.arg[n]) : n \in {m \in DOMAIN P.kind : P.kind[m] # "none"}} IN
  IF "no" \in vs THEN "no" ELSE IF "any" \in vs THEN "any" ELSE "yes"

(* Nothing is known about the options of a command line that was refused.  *)
Spoiled(st) ==
  [st.P EXCEPT !.val = [n \in DOMAIN @ |-> IF n \in st.touched THEN Unknown ELSE @[n]],
               !.arg = [n \in DOMAIN @ |-> IF n \in st.touched THEN ArgDisturbed(@[n]) ELSE @[n]]]

(* [out, P, printed]; out "any": refused or accepted.                      *)
Parse(fs, P, args) ==
  IF args = <<>> THEN [out |-> "no", P |-> P, spoiled |-> P, printed |-> {"usage"}]
  ELSE LET st == Walk(fs, args, 1, Start(P))
           f == IF st.out = "ok" THEN Finally(st.P) ELSE "yes"
           out == IF st.out # "ok" \/ f = "yes" THEN st.out ELSE f IN
       [out |-> out,
        P |-> IF out = "any" THEN Spoiled(st) ELSE st.P,
        spoiled |-> Spoiled(st),
        printed |-> st.printed]

-----------------------------------------------------------------------------
(* Reading option n as type t.  "yes"/"no"/"any": is there a value?        *)
Has(P, n) ==
  IF ~Known(P, n) THEN "no"
  ELSE CASE P.val[n].k = "none" -> "no" [] P.val[n].k = "is" -> "yes" [] OTHER -> "any"

Reads(t, got, w) ==
  CASE t \in {"int", "size"} -> IntWord(got) # <<>> /\ IntWord(got) = IntWord(w)
    [] t = "double" -> DecWord(got) # <<>> /\ DecWord(got) = DecWord(w)
    [] t = "string" -> got = w
    [] t = "switch" -> got = (IF w \in SwitchOn THEN "1" ELSE "0")
=============================================================================
