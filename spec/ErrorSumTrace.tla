--------------------------- MODULE ErrorSumTrace ----------------------------
(***************************************************************************)
(* Recorded histories of real error values.  Record: [np, nc, ops]: each     *)
(* operation [c |-> the operation, cells |-> <<fp, fn, nh hi, nh lo, nr hi,   *)
(* nr lo>> of all values, cmpp, cmpc |-> for all pairs of plain errors and of   *)
(* errors with counts in row order: 1 if ==, plus 2 if != ].                     *)
(***************************************************************************)
EXTENDS TraceLib, FiniteSets
M == INSTANCE ErrorSum WITH NP <- 0, NC <- 0, Masses <- {}, Counts <- {}, P <- <<>>, C <- <<>>, last <- 0
VARIABLES l, i, P, C
T == Trace[l]
E == T.ops[i]
StartP(t) == [k \in 1..t.np |-> M!Plain(0, 0)]
StartC(t) == [k \in 1..t.nc |-> M!Zero]
Row(e) == <<e.fp, e.fn, e.nh[1], e.nh[2], e.nr[1], e.nr[2]>>
Table(s, same(_, _)) == [k \in 1..(Len(s) * Len(s)) |-> IF same(s[1 + ((k - 1) \div Len(s))], s[1 + ((k - 1) % Len(s))]) THEN 1 ELSE 2]
Seen(e, p, c) ==
  LET all == M!Cells(p, c) IN
  /\ e.cells = [k \in 1..Len(all) |-> Row(all[k])]
  /\ e.cmpp = Table(p, M!SameP) /\ e.cmpc = Table(c, M!SameC)
Load(k) == IF k <= Len(Trace) /\ Has(Trace[k], "np") THEN P' = StartP(Trace[k]) /\ C' = StartC(Trace[k]) ELSE P' = <<>> /\ C' = <<>>
TraceInit == /\ l = 1 /\ i = 1 /\ Consumed(0)
             /\ P = IF Len(Trace) > 0 /\ Has(Trace[1], "np") THEN StartP(Trace[1]) ELSE <<>>
             /\ C = IF Len(Trace) > 0 /\ Has(Trace[1], "np") THEN StartC(Trace[1]) ELSE <<>>
NextRecord == l' = l + 1 /\ i' = 1 /\ Load(l + 1) /\ Consumed(l)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash) /\ NextRecord
     ELSE IF i > Len(T.ops) THEN NextRecord
     ELSE LET p == M!NewP(P, C, E.c)  c == M!NewC(P, C, E.c) IN
          IF Seen(E, p, c) THEN P' = p /\ C' = c /\ i' = i + 1 /\ l' = l
          ELSE Reject(l, <<"operation", i, E.c, "expected", M!Cells(p, c), "seen", E.cells, E.cmpp, E.cmpc>>) /\ NextRecord
TraceSpec == TraceInit /\ [][TraceNext]_<<l, i, P, C>>
=============================================================================
