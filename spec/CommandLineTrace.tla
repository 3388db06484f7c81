-------------------------- MODULE CommandLineTrace --------------------------
(***************************************************************************)
(* Recorded parses of the real parser.  Record: [d, argv, st, vals, olds]:   *)
(* st is "ok", "fail" or "help" (the program ended without evaluating); for  *)
(* the tools (vals absent) only st is judged, where the positional arguments *)
(* are the readable files refs and hyps (other names need not be readable).  *)
(***************************************************************************)
EXTENDS TraceLib, CommandLine
VARIABLE l
T == Trace[l]
Good ==
  LET r == Parsed(T.d, T.argv) IN
  /\ Grammar(T.d, T.argv) = r
  /\ \/ T.st = r.st
     \/ r.st = "ok" /\ T.st = "fail" /\ Has(T, "refs") /\ LET n == Len(T.d.opts) IN
           \/ r.set[n + 1].text # T.refs
           \/ ~r.set[n + 2].old /\ r.set[n + 2].text # T.hyps
     \/ r.st = "fail" /\ T.st = "help" /\ AsksHelp(T.d, T.argv)
  /\ T.st = "ok" /\ Has(T, "vals") => HoldsAll(T.d, r, T.vals, T.olds)
TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE IF Good THEN TRUE ELSE Reject(l, <<"must be", Parsed(T.d, T.argv)>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
