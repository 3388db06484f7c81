----------------------------- MODULE ReuseTrace -----------------------------
(***************************************************************************)
(* Histories of calls on one object next to the same calls on fresh objects *)
(* (C18).  Record: [steps |-> << [in, obs |-> <<reused, fresh>>] >>].       *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLE l
R == Trace[l]
Same(s) == s.obs[1] = s.obs[2]
Bad == {i \in 1..Len(R.steps) : ~Same(R.steps[i])}
TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(R, "crash") THEN Reject(l, R.crash)
     ELSE IF Bad = {} THEN TRUE
     ELSE LET i == CHOOSE i \in Bad : \A j \in Bad : i <= j IN Reject(l, <<"call", i, R.steps[i]>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
