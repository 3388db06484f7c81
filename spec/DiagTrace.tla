------------------------------ MODULE DiagTrace ------------------------------
(***************************************************************************)
(* Recorded diagnostics of runs.  Record: the fields of module Diagnostics   *)
(* and facts, the sequence of <<what, number>> found on standard error.      *)
(***************************************************************************)
EXTENDS Diagnostics, TraceLib
VARIABLE l
T == Trace[l]
Good == /\ {T.facts[i] : i \in 1..Len(T.facts)} = Facts(T)
        /\ Len(T.facts) = Cardinality(Facts(T))           \* each told once
TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE IF Good THEN TRUE ELSE Reject(l, <<"true facts", Facts(T)>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
