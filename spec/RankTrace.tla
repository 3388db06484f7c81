----------------------------- MODULE RankTrace ------------------------------
(***************************************************************************)
(* The order in which a tool run listed its hypotheses.  Record: ht (values *)
(* with score s and number t of the printed form), hf (file), sort, out (t  *)
(* of the hypotheses in the dump, in order), all (TRUE when every           *)
(* hypothesis must be listed: nothing could be claimed by another one).      *)
(***************************************************************************)
EXTENDS Events, TraceLib

VARIABLE l
R == Trace[l]

Greater(a, b) == \/ a.s > b.s
                 \/ a.s = b.s /\ EvLess(b, a)
K == INSTANCE Ranking WITH HypGreater <- Greater

Shown == LET r == K!Ranking([i \in 1..Len(R.hf) |-> R.ht[R.hf[i]]], R.sort)
         IN [i \in 1..Len(r) |-> r[i].t]

(* Greedy embedding of a in b: how many elements of a are found, in order.   *)
Found(a, b) == FoldLeft(LAMBDA k, x : IF k < Len(a) /\ a[k + 1] = x THEN k + 1 ELSE k, 0, b)
Good == IF R.all THEN R.out = Shown ELSE Found(R.out, Shown) = Len(R.out)

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(R, "crash") THEN Reject(l, R.crash)
     ELSE IF Good THEN TRUE ELSE Reject(l, <<"ranking", Shown>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
