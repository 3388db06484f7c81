------------------------------ MODULE HelpText ------------------------------
(***************************************************************************)
(* Declaring a command line and describing it (property C23).               *)
(*                                                                         *)
(* The state of a parser under construction is [opts, args, opt]: sequences *)
(* of [n |-> name, h |-> description, t |-> type], options in order of their *)
(* names.  Names and texts are sequences of byte values.  Val(k, o) is the   *)
(* text of the current value of option number k.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

HNew == [opts |-> <<>>, args |-> <<>>, opt |-> <<>>]
Reserved == <<104, 101, 108, 112>>

RECURSIVE TextLess(_, _)
TextLess(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE TextLess(Tail(a), Tail(b))

\* an option is refused when its name is taken or reserved
Refused(P, n) == n = Reserved \/ \E k \in 1..Len(P.opts) : P.opts[k].n = n
Declare(P, kind, e) ==
  CASE kind = "opt" -> IF Refused(P, e.n) THEN P
                       ELSE LET before == {k \in 1..Len(P.opts) : TextLess(P.opts[k].n, e.n)}
                                m == Cardinality(before)
                            IN [P EXCEPT !.opts = SubSeq(@, 1, m) \o <<e>> \o SubSeq(@, m + 1, Len(@))]
    [] kind = "arg" -> [P EXCEPT !.args = Append(@, e)]
    [] OTHER -> [P EXCEPT !.opt = Append(@, e)]
Accepted(P, kind, e) == kind # "opt" \/ ~Refused(P, e.n)

---------------------------------------------------------------------------
TypeName == ("i8" :> <<105,110,116,56,95,116>> @@ "u8" :> <<117,105,110,116,56,95,116>>
          @@ "i16" :> <<105,110,116,49,54,95,116>> @@ "u16" :> <<117,105,110,116,49,54,95,116>>
          @@ "i32" :> <<105,110,116,51,50,95,116>> @@ "u32" :> <<117,105,110,116,51,50,95,116>>
          @@ "i64" :> <<105,110,116,54,52,95,116>> @@ "u64" :> <<117,105,110,116,54,52,95,116>>
          @@ "bool" :> <<98,111,111,108>> @@ "string" :> <<115,116,114,105,110,103>>)
NamedTypes == DOMAIN TypeName

S_usage == <<85,115,97,103,101,58,32>>                              \* "Usage: "
S_options == <<32,91,32,111,112,116,105,111,110,115,32,93>>         \* " [ options ]"
S_open == <<32,91,32>>
S_close == <<32,93>>
S_desc == <<68,101,115,99,114,105,112,116,105,111,110,58>>          \* "Description:"
S_args == <<65,114,103,117,109,101,110,116,115,58>>                 \* "Arguments:"
S_opts == <<79,112,116,105,111,110,115,58>>                         \* "Options:"
S_type == <<32,40,116,121,112,101,32,61,32>>                        \* " (type = "
S_value == <<44,32,118,97,108,117,101,32,61,32,34>>                 \* ", value = \""
S_end == <<34,41>>
S_dd == <<45,45>>

Cat(ss) == FlattenSeq(ss)
Spaces(n) == [i \in 1..n |-> 32]
Width(P) ==
  LET W == {Len(P.opts[k].n) + 2 : k \in 1..Len(P.opts)} \cup {Len(P.args[k].n) : k \in 1..Len(P.args)}
           \cup {Len(P.opt[k].n) : k \in 1..Len(P.opt)}
  IN IF W = {} THEN 0 ELSE CHOOSE w \in W : \A v \in W : v <= w

Usage(P, prog) ==
  S_usage \o prog \o (IF P.opts = <<>> THEN <<>> ELSE S_options)
  \o Cat([k \in 1..Len(P.args) |-> <<32>> \o P.args[k].n])
  \o Cat([k \in 1..Len(P.opt) |-> S_open \o P.opt[k].n])
  \o Cat([k \in 1..Len(P.opt) |-> S_close])

Row(w, name, help) == <<32, 32>> \o name \o Spaces(w - Len(name)) \o <<32, 58, 32>> \o help \o S_type
\* the names of the remaining types are left open: such a row is only known up to there
ArgRow(w, a) == IF a.t \in NamedTypes THEN [open |-> FALSE, text |-> Row(w, a.n, a.h) \o TypeName[a.t] \o <<41>>]
                ELSE [open |-> TRUE, text |-> Row(w, a.n, a.h)]
OptRow(w, o, v) == IF o.t \in NamedTypes THEN [open |-> FALSE, text |-> Row(w, S_dd \o o.n, o.h) \o TypeName[o.t] \o S_value \o v \o S_end]
                   ELSE [open |-> TRUE, text |-> Row(w, S_dd \o o.n, o.h)]

Exactly(s) == [open |-> FALSE, text |-> s]
(* All lines of the help text.                                               *)
Help(P, prog, desc, Val(_, _)) ==
  LET w == Width(P) IN
  << Exactly(Usage(P, prog)) >>
  \o (IF desc = <<>> THEN <<>> ELSE <<Exactly(<<>>), Exactly(S_desc), Exactly(desc)>>)
  \o (IF P.args = <<>> /\ P.opt = <<>> THEN <<>>
      ELSE <<Exactly(<<>>), Exactly(S_args)>> \o [k \in 1..Len(P.args) |-> ArgRow(w, P.args[k])]
           \o [k \in 1..Len(P.opt) |-> ArgRow(w, P.opt[k])])
  \o (IF P.opts = <<>> THEN <<>>
      ELSE <<Exactly(<<>>), Exactly(S_opts)>> \o [k \in 1..Len(P.opts) |-> OptRow(w, P.opts[k], Val(k, P.opts[k]))])

LineIs(line, want) == IF want.open THEN IsPrefix(want.text, line) ELSE line = want.text
Shows(lines, want) == Len(lines) = Len(want) /\ \A i \in 1..Len(want) : LineIs(lines[i], want[i])

---------------------------------------------------------------------------
(* Laws: names of options are different and in order; every declared thing    *)
(* has exactly one row.                                                      *)
WellFormed(P) ==
  /\ \A i \in 1..Len(P.opts) : P.opts[i].n # Reserved
  /\ \A i, j \in 1..Len(P.opts) : i < j => TextLess(P.opts[i].n, P.opts[j].n)
=============================================================================
