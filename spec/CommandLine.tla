---------------------------- MODULE CommandLine -----------------------------
(***************************************************************************)
(* Command lines (property C15).                                            *)
(*                                                                         *)
(* A declaration is [opts |-> sequence of [n |-> name, t |-> type],         *)
(* args |-> types of the mandatory arguments, opt |-> types of the optional *)
(* ones]; a token is a sequence of byte values.  A result is [st, set]: st  *)
(* "ok", "help" or "fail"; set gives for every variable (options in order of *)
(* declaration, then arguments) [old |-> TRUE] or the text of its last value. *)
(*                                                                         *)
(* Two descriptions: Grammar (which splits of the vector are allowed) and    *)
(* the parser at work, one token per step; TLC shows they agree.            *)
(***************************************************************************)
EXTENDS NumberText

Dash == 45
DD == <<45, 45>>
HelpToken == DD \o <<104, 101, 108, 112>>
T_true == <<116, 114, 117, 101>>
T_false == <<102, 97, 108, 115, 101>>
BoolText == {T_true, T_false, <<49>>, <<48>>}

Valid(ty, s) == CASE ty = "string" -> TRUE
                  [] ty = "bool" -> s \in BoolText
                  [] ty \in {"float", "double"} -> IsReal(ty, s)
                  [] OTHER -> IsInt(ty, s)

OptionLike(s) == Len(s) >= 2 /\ s[1] = Dash
StartsWithDash(s) == Len(s) > 0 /\ s[1] = Dash
NameOf(s) == SubSeq(s, 3, Len(s))
Find(D, s) ==      \* the declared option a token names, 0 if none
  LET K == {k \in 1..Len(D.opts) : DD \o D.opts[k].n = s} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
NVars(D) == Len(D.opts) + Len(D.args) + Len(D.opt)
ArgType(D, k) == IF k <= Len(D.args) THEN D.args[k] ELSE D.opt[k - Len(D.args)]
Old == [old |-> TRUE, text |-> <<>>]
New(s) == [old |-> FALSE, text |-> s]
Nothing(D) == [k \in 1..NVars(D) |-> Old]

---------------------------------------------------------------------------
(* The parser at work.  State: [mode |-> "options" / "arguments" / "value",  *)
(* k |-> option waiting for its value or number of arguments so far, help,   *)
(* st, set].                                                                *)
PStart(D) == [mode |-> "options", k |-> 0, help |-> FALSE, st |-> "run", set |-> Nothing(D)]
Fail(p) == [p EXCEPT !.st = "fail"]
Give(D, p, v, ty, s) == IF Valid(ty, s) THEN [p EXCEPT !.set[v] = New(s)] ELSE Fail(p)

ArgumentStep(D, p, s) ==
  LET k == p.k + 1 IN
  IF k > Len(D.args) + Len(D.opt) THEN Fail(p)
  ELSE [Give(D, p, Len(D.opts) + k, ArgType(D, k), s) EXCEPT !.k = k]
\* the options are over: either help was asked for, or arguments follow
EndOptions(p) == IF p.help THEN [p EXCEPT !.st = "help"] ELSE [p EXCEPT !.mode = "arguments", !.k = 0]
OptionStep(D, p, s) ==
  IF ~OptionLike(s) THEN LET q == EndOptions(p) IN IF q.st = "help" THEN q ELSE ArgumentStep(D, q, s)
  ELSE IF s = DD THEN EndOptions(p)
  ELSE IF s = HelpToken THEN [p EXCEPT !.help = TRUE]
  ELSE LET k == Find(D, s) IN
       IF k = 0 THEN Fail(p)
       ELSE IF D.opts[k].t = "bool" THEN [p EXCEPT !.mode = "value", !.k = k, !.set[k] = New(T_true)]
       ELSE [p EXCEPT !.mode = "value", !.k = k]
ValueStep(D, p, s) ==
  LET q == [p EXCEPT !.mode = "options"]
      ty == D.opts[p.k].t
  IN IF ty = "bool" /\ StartsWithDash(s) THEN OptionStep(D, q, s)     \* the option stands alone
     ELSE Give(D, q, p.k, ty, s)
PStep(D, p, s) ==
  IF p.st # "run" THEN p
  ELSE CASE p.mode = "options" -> OptionStep(D, p, s)
         [] p.mode = "value" -> ValueStep(D, p, s)
         [] OTHER -> ArgumentStep(D, p, s)
PEnd(D, p) ==
  LET q == IF p.st # "run" THEN p
           ELSE IF p.mode = "value" /\ D.opts[p.k].t # "bool" THEN Fail(p)
           ELSE IF p.mode = "arguments" THEN p
           ELSE EndOptions(p)
  IN IF q.st # "run" THEN [st |-> q.st, set |-> IF q.st = "fail" THEN <<>> ELSE q.set]
     ELSE IF q.k < Len(D.args) THEN [st |-> "fail", set |-> <<>>]
     ELSE [st |-> "ok", set |-> q.set]
Parsed(D, argv) == PEnd(D, FoldLeft(LAMBDA p, s : PStep(D, p, s), PStart(D), argv))

---------------------------------------------------------------------------
(* The grammar:  { option } [ -- ] arguments.  Items(i): the ways to read one *)
(* option at position i, as [next, set].                                     *)
OptionAt(D, argv, i) ==
  IF i > Len(argv) \/ ~OptionLike(argv[i]) \/ argv[i] = DD THEN {}
  ELSE IF argv[i] = HelpToken THEN {[next |-> i + 1, v |-> 0, s |-> <<>>, help |-> TRUE]}
  ELSE LET k == Find(D, argv[i]) IN
    IF k = 0 THEN {}
    ELSE IF D.opts[k].t = "bool" /\ (i = Len(argv) \/ StartsWithDash(argv[i + 1]))
         THEN {[next |-> i + 1, v |-> k, s |-> T_true, help |-> FALSE]}
    ELSE IF i < Len(argv) /\ Valid(D.opts[k].t, argv[i + 1])
         THEN {[next |-> i + 2, v |-> k, s |-> argv[i + 1], help |-> FALSE]}
    ELSE {}
RECURSIVE OptionsFrom(_, _, _, _, _)
OptionsFrom(D, argv, i, set, help) ==     \* [next, set, help] after all options, next = 0 if one is wrong
  IF i > Len(argv) \/ ~OptionLike(argv[i]) THEN [next |-> i, set |-> set, help |-> help]
  ELSE IF argv[i] = DD THEN [next |-> i + 1, set |-> set, help |-> help]
  ELSE LET O == OptionAt(D, argv, i) IN
       IF O = {} THEN [next |-> 0, set |-> set, help |-> help]
       ELSE LET o == CHOOSE o \in O : TRUE IN
            OptionsFrom(D, argv, o.next, IF o.v = 0 THEN set ELSE [set EXCEPT ![o.v] = New(o.s)], help \/ o.help)
Grammar(D, argv) ==
  LET o == OptionsFrom(D, argv, 1, Nothing(D), FALSE)
      rest == SubSeq(argv, o.next, Len(argv))
      n == Len(D.opts)
  IN IF o.next = 0 THEN [st |-> "fail", set |-> <<>>]
     ELSE IF o.help THEN [st |-> "help", set |-> o.set]
     ELSE IF /\ Len(rest) >= Len(D.args) /\ Len(rest) <= Len(D.args) + Len(D.opt)
             /\ \A k \in 1..Len(rest) : Valid(ArgType(D, k), rest[k])
          THEN [st |-> "ok", set |-> [v \in 1..NVars(D) |-> IF v <= n THEN o.set[v]
                                        ELSE IF v - n <= Len(rest) THEN New(rest[v - n]) ELSE Old]]
     ELSE [st |-> "fail", set |-> <<>>]

(* Help was asked for before the first wrong token: whether the error or the  *)
(* help comes first is left open.                                            *)
AsksHelp(D, argv) == \E i \in 1..Len(argv) :
  LET o == OptionsFrom(D, SubSeq(argv, 1, i), 1, Nothing(D), FALSE) IN o.next # 0 /\ o.help

---------------------------------------------------------------------------
(* Does an observed variable hold what it must?  o is the initial value.      *)
ValueIs(ty, s, v) == CASE ty = "string" -> v = s
                       [] ty = "bool" -> v = IF s \in {T_true, <<49>>} THEN <<49>> ELSE <<48>>
                       [] ty \in {"float", "double"} -> RoundsTo(ty, Decimal(s), v)
                       [] OTHER -> v = IntValue(s)
VarType(D, k) == IF k <= Len(D.opts) THEN D.opts[k].t ELSE ArgType(D, k - Len(D.opts))
HoldsAll(D, r, vals, olds) ==
  /\ Len(vals) = NVars(D)
  /\ \A k \in 1..NVars(D) : IF r.set[k].old THEN vals[k] = olds[k] ELSE ValueIs(VarType(D, k), r.set[k].text, vals[k])

---------------------------------------------------------------------------
=============================================================================
