------------------------------ MODULE MCCmdLine ------------------------------
(***************************************************************************)
(* Every command line of up to MaxLen words for a small parser.  A machine *)
(* that reads the line word by word, without looking ahead, is compared    *)
(* with Parse; and what is expected of any parser is checked of it.        *)
(***************************************************************************)
EXTENDS CmdLine, Json, CSV, IOUtils

CONSTANTS MaxLen, EmitLen, Defaults

VARIABLES line, m
vars == <<line, m>>

Fs == [dirs |-> {<<>>, <<"up">>, Here}, files |-> {Here \o <<"a.f">>}]

Flags == << <<"--num", "-n">>, <<"--name">>, <<"--sw", "-s">>, <<"--bare", "-b">>, <<"--file", "-f">>,
            <<"--version", "-V">>, <<"--citation", "-cite">> >>

Setup ==
  LET p1 == AddArg(NewParser(Flags), "--num", "ARGUMENT_INT")
      p2 == SetRule(p1, "--num", "ARGUMENT_INT", "PROPERTY_INT", "MAX", <<"5">>)
      p3 == AddArg(p2, "--name", "ARGUMENT_STRING")
      p4 == AddArg(p3, "--sw", "ARGUMENT_SWITCH")
      p5 == SetRule(p4, "--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", <<"1">>) IN
  IF Defaults THEN Default(Default(Default(p5, "--num", "3"), "--name", "d"), "--sw", "ON")
  ELSE Default(p4, "--sw", "OFF")

Words == {"--num", "-n", "--name", "--sw", "-s", "--bare", "--file", "--help", "-cite", "-V", "1", "9", "ON", "a.f", "x"}

-----------------------------------------------------------------------------
(* The machine: wait is "" or the option whose value is expected; may: the *)
(* value may also be missing.                                              *)
Idle == [P |-> Setup, wait |-> "", may |-> FALSE, out |-> "go", helps |-> 0, n |-> 0]

Take(s, o, w) ==
  LET x == ArgSatisfies(Fs, s.P.arg[o], w) IN
  IF x = "yes" THEN [s EXCEPT !.P.val[o] = Value(w), !.P.arg[o] = ArgSupplied(Fs, @, w), !.wait = "", !.may = FALSE]
  ELSE [s EXCEPT !.out = "no"]

Word(s, w) ==
  LET o == OptionOf(s.P, w) IN
  CASE w \in HelpWords \cup CiteWords -> [s EXCEPT !.helps = @ + 1]
    [] w \in VersionWords(s.P) -> [s EXCEPT !.out = "exit0"]
    [] o = <<>> -> [s EXCEPT !.out = "no"]
    [] OTHER -> CASE s.P.kind[o[1]] = "none" -> [s EXCEPT !.out = "no"]
                  [] s.P.kind[o[1]] = "ARGUMENT_SWITCH" -> [s EXCEPT !.wait = o[1], !.may = TRUE]
                  [] OTHER -> [s EXCEPT !.wait = o[1]]

Feed(s0, w) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  IF s.out # "go" THEN s
  ELSE IF s.wait = "" THEN Word(s, w)
  ELSE IF s.may /\ IsFlag(s.P, w)
  THEN LET t == Take(s, s.wait, "ON") IN IF t.out = "go" THEN Word(t, w) ELSE t
  ELSE Take(s, s.wait, w)

End(s) ==
  IF s.out # "go" THEN s.out
  ELSE IF s.n = 0 THEN "no"
  ELSE IF s.helps = s.n THEN "exit0"
  ELSE IF s.wait # "" /\ ~s.may THEN "no"
  ELSE Finally(s.P)
EndVal(s) == IF s.wait # "" THEN Take(s, s.wait, "ON").P.val ELSE s.P.val

-----------------------------------------------------------------------------
TheLine == line
Init == line = <<>> /\ m = Idle
Next == Len(line) < MaxLen /\ \E w \in Words : line' = Append(line, w) /\ m' = Feed(m, w)
Spec == Init /\ [][Next]_vars

R(l) == Parse(Fs, Setup, l)
Ok(l) == R(l).out = "ok"

Machine ==
  /\ R(line).out = (IF End(m) = "yes" THEN "ok" ELSE End(m))
  /\ Ok(line) => R(line).P.val = EndVal(m)

Add1 == <<"--num", "1">>
LastWins ==
  Ok(line) => /\ Ok(line \o Add1)
              /\ R(line \o Add1).P.val = [R(line).P.val EXCEPT !["--num"] = Value("1")]
Gives(l, n) == \E i \in DOMAIN l : OptionOf(Setup, l[i]) = <<n>>
OrderFree ==
  Ok(line) /\ ~Gives(line, "--num") => /\ Ok(Add1 \o line)
                                     /\ R(Add1 \o line).P.val = R(line \o Add1).P.val
(* Help does not matter, wherever an option may start. *)
HelpNeutral ==
  \A i \in 0..Len(line) :
    LET a == SubSeq(line, 1, i)
        b == SubSeq(line, i + 1, Len(line))
        h == a \o <<"--help">> \o b IN
    Ok(line) /\ (a = <<>> \/ R(a).out \in {"ok", "exit0"}) /\ (b = <<>> \/ IsFlag(Setup, b[1])) => Ok(h) /\ R(h).P.val = R(line).P.val
(* What is not given keeps its value; one after the other is the same as   *)
(* all at once.                                                            *)
Keeps ==
  /\ Ok(line) => \A n \in DOMAIN Setup.val : ~Gives(line, n) => R(line).P.val[n] = Setup.val[n]
  /\ \A i \in 1..(Len(line) - 1) :
       LET a == SubSeq(line, 1, i)
           b == SubSeq(line, i + 1, Len(line)) IN
       Ok(a) /\ Parse(Fs, R(a).P, b).out = "ok" => Ok(line) /\ R(line).P.val = Parse(Fs, R(a).P, b).P.val
(* Values given always satisfy their rules. *)
Sound ==
  Ok(line) => \A n \in DOMAIN Setup.val :
    R(line).P.val[n] # Setup.val[n] =>
      /\ ArgSatisfies(Fs, Setup.arg[n], R(line).P.val[n].w) = "yes"
      /\ \/ \E i \in DOMAIN line : line[i] = R(line).P.val[n].w
         \/ R(line).P.val[n].w = "ON" /\ Setup.kind[n] = "ARGUMENT_SWITCH"
Required == Ok(line) /\ Defaults => Gives(line, "--file")

Emit ==
  "EMIT" \in DOMAIN IOEnv /\ Len(line) = EmitLen =>
    CSVWrite("%1$s", <<ToJson([line |-> line])>>, IOEnv.EMIT)
=============================================================================
