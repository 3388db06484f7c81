------------------------------ MODULE HelpTrace ------------------------------
(***************************************************************************)
(* Recorded declarations and help texts.  Record: hist (sequence of [kind,   *)
(* n, h, t, v]: v is the text of the initial value), ans (the answers),      *)
(* argv (tokens parsed before, or asking for help), prog, desc, asked (was   *)
(* the text printed on request?), lines.                                    *)
(* For the tools: prog and desc are not known (open |-> TRUE); the rows of   *)
(* arguments and options must be there in order.                            *)
(***************************************************************************)
EXTENDS TraceLib, CommandLine
H == INSTANCE HelpText
VARIABLE l
T == Trace[l]

Entry(m) == [n |-> m.n, h |-> m.h, t |-> m.t, v |-> m.v]
Built == FoldLeft(LAMBDA P, m : H!Declare(P, m.kind, Entry(m)), H!HNew, T.hist)
RECURSIVE Answers(_, _)
Answers(P, i) == IF i > Len(T.hist) THEN <<>>
                 ELSE <<H!Accepted(P, T.hist[i].kind, Entry(T.hist[i]))>> \o Answers(H!Declare(P, T.hist[i].kind, Entry(T.hist[i])), i + 1)
Decl(P) == [opts |-> [k \in 1..Len(P.opts) |-> [n |-> P.opts[k].n, t |-> P.opts[k].t]],
            args |-> [k \in 1..Len(P.args) |-> P.args[k].t], opt |-> [k \in 1..Len(P.opt) |-> P.opt[k].t]]
Canon(t, s) == CASE t = "string" -> s
                 [] t = "bool" -> IF s \in {T_true, <<49>>} THEN T_true ELSE T_false
                 [] t \in {"float", "double"} -> <<>>
                 [] OTHER -> IntValue(s)
Good ==
  LET P == Built
      \* nothing is parsed when there are no tokens
      r == IF T.argv = <<>> THEN [st |-> "ok", set |-> Nothing(Decl(P))] ELSE Parsed(Decl(P), T.argv)
      val(k, o) == IF r.set[k].old THEN o.v ELSE Canon(o.t, r.set[k].text)
      want == H!Help(P, T.prog, T.desc, val)
  IN /\ T.ans = Answers(H!HNew, 1)
     /\ r.st = T.st
     /\ r.st # "fail" => H!Shows(T.lines, want)

\* the rows of a tool: from "Arguments:" on
ToolGood ==
  LET P == Built
      r == Parsed(Decl(P), T.argv)
      row(o, v) == [pre |-> H!S_dd \o o.n \o <<32>>, post |-> IF o.t \in H!NamedTypes THEN H!S_type \o H!TypeName[o.t] \o H!S_value \o v \o H!S_end ELSE <<>>]
      is(line, w) == /\ IsPrefix(<<32, 32>> \o w.pre, line)
                     /\ IsSuffix(w.post, line)
      val(k) == IF r.set[k].old THEN P.opts[k].v ELSE Canon(P.opts[k].t, r.set[k].text)
      rows == {i \in 1..Len(T.lines) : IsPrefix(<<32, 32>> \o H!S_dd, T.lines[i])}
  IN /\ r.st = "help" /\ T.st = "help"
     /\ Cardinality(rows) = Len(P.opts)
     /\ \A k \in 1..Len(P.opts) : Cardinality({i \in rows : is(T.lines[i], row(P.opts[k], val(k)))}) = 1
     /\ \A k \in 1..Len(P.args) : Cardinality({i \in 1..Len(T.lines) : IsPrefix(<<32, 32>> \o P.args[k].n \o <<32>>, T.lines[i])}) = 1
     /\ \A k \in 1..Len(P.opt) : Cardinality({i \in 1..Len(T.lines) : IsPrefix(<<32, 32>> \o P.opt[k].n \o <<32>>, T.lines[i])}) = 1

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE IF (IF Has(T, "tool") THEN ToolGood ELSE Good) THEN TRUE
     ELSE Reject(l, <<"answers", Answers(H!HNew, 1), "parse", Parsed(Decl(Built), T.argv).st>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
