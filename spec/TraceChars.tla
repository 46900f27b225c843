----------------------------- MODULE TraceChars -----------------------------
(***************************************************************************)
(* Trace validation of the text helpers.                                   *)
(***************************************************************************)
EXTENDS Chars, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Is(op) == l <= Len(Trace) /\ Trace[l].op = op

(* Helpers with one argument. *)
OneOk(e) ==
  /\ e.out = "ok"
  /\ IsPathSplit(e.s, e.dir, e.last)
  /\ IsSplit(e.s, e.words)
  /\ IsLTrim(e.s, e.lt) /\ IsRTrim(e.s, e.rt)
  /\ IsTrim(e.s, e.tr) /\ e.tr2 = e.tr
  /\ e.alpha = (IF IsAlphabetical(e.s) THEN 1 ELSE 0)
One == Is("one") /\ OneOk(Trace[l]) = TRUE

(* A string and a number of characters, at most its length. *)
NumberOk(e) ==
  /\ e.out = "ok"
  /\ e.fn = FirstN(e.s, e.n) /\ e.cb = CutBeg(e.s, e.n)
  /\ e.ln = LastN(e.s, e.n) /\ e.ce = CutEnd(e.s, e.n)
Number == Is("number") /\ NumberOk(Trace[l]) = TRUE

(* A string and a text to look for. *)
SearchOk(e) ==
  /\ e.out = "ok"
  /\ e.found = (IF Found(e.s, e.o) THEN 1 ELSE 0)
  /\ e.af = AfterFirst(e.s, e.o) /\ e.al = AfterLast(e.s, e.o)
  /\ e.ali = AfterLastIncl(e.s, e.o)
  /\ e.bf = BeforeFirst(e.s, e.o) /\ e.bl = BeforeLast(e.s, e.o)
  /\ e.bli = BeforeLastIncl(e.s, e.o)
Search == Is("search") /\ SearchOk(Trace[l]) = TRUE

Init == l = 1
Next == (One \/ Number \/ Search) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
