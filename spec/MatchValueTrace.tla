-------------------------- MODULE MatchValueTrace ---------------------------
(***************************************************************************)
(* Recorded histories of real matches.  Record: [n, ops]: n variables, each  *)
(* operation [c |-> the operation, cells |-> values of all variables and then *)
(* of all vector elements (ref, hyp, fp, fn), cmp |-> for all pairs of cells  *)
(* in row order: 1 if ==, plus 2 if != ].                                     *)
(***************************************************************************)
EXTENDS TraceLib, FiniteSets
M == INSTANCE MatchValue WITH N <- 0, Refs <- {}, Hyps <- {}, Masses <- {}, MaxV <- 0, Names <- {}, S <- <<>>, V <- <<>>, last <- 0
VARIABLES l, i, S, V
T == Trace[l]
E == T.ops[i]
Fresh(n) == [k \in 1..n |-> M!Blank]
Seen(cells, cmp, s, v) ==
  LET want == M!Cells(s, v)
      n == Len(want)
  IN /\ Len(cells) = n
     /\ \A k \in 1..n : M!Known(want[k]) => cells[k] = <<want[k].ref, want[k].hyp, want[k].fp, want[k].fn>>
     /\ Len(cmp) = n * n
     /\ \A a, b \in 1..n : M!Known(want[a]) /\ M!Known(want[b]) => cmp[(a - 1) * n + b] = IF M!Same(want[a], want[b]) THEN 1 ELSE 2
TraceInit == l = 1 /\ i = 1 /\ S = Fresh(IF Len(Trace) = 0 THEN 0 ELSE IF Has(Trace[1], "n") THEN Trace[1].n ELSE 0) /\ V = <<>> /\ Consumed(0)
NextRecord == /\ l' = l + 1 /\ i' = 1 /\ V' = <<>> /\ Consumed(l)
              /\ S' = Fresh(IF l < Len(Trace) THEN IF Has(Trace[l + 1], "n") THEN Trace[l + 1].n ELSE 0 ELSE 0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash) /\ NextRecord
     ELSE IF i > Len(T.ops) THEN NextRecord
     ELSE IF ~M!Allowed(S, V, E.c) THEN PrintT("MALFORMED " \o ToString(<<l, i, E.c>>)) /\ NextRecord
     ELSE LET s == M!NewS(S, V, E.c)  v == M!NewV(S, V, E.c) IN
          IF Seen(E.cells, E.cmp, s, v) THEN S' = s /\ V' = v /\ i' = i + 1 /\ l' = l
          ELSE Reject(l, <<"operation", i, E.c, "expected", s, v, "seen", E.cells, E.cmp>>) /\ NextRecord
TraceSpec == TraceInit /\ [][TraceNext]_<<l, i, S, V>>
=============================================================================
