----------------------------- MODULE OrderTrace -----------------------------
(***************************************************************************)
(* Record: [vals, pairs |-> << [i, j, six] >>, asc, desc]: values, observed *)
(* outcomes of the six operators on pairs, and the values sorted by the     *)
(* standard library with less and greater (as positions).                   *)
(***************************************************************************)
EXTENDS TraceLib, Orders
VARIABLE l
T == Trace[l]
BadPairs == {k \in 1..Len(T.pairs) : Six(T.vals[T.pairs[k].i], T.vals[T.pairs[k].j]) # T.pairs[k].six}
SortedOk(s, lt(_, _)) ==
  /\ Len(s) = Len(T.vals) /\ {s[i] : i \in 1..Len(s)} = 1..Len(T.vals)
  /\ \A i \in 1..Len(s) - 1 : ~lt(T.vals[s[i + 1]], T.vals[s[i]])
Problems == {<<"operators", T.vals[T.pairs[k].i], T.vals[T.pairs[k].j], T.pairs[k].six>> : k \in BadPairs}
            \cup (IF SortedOk(T.asc, Before) THEN {} ELSE {<<"ascending sort">>})
            \cup (IF SortedOk(T.desc, LAMBDA x, y : Before(y, x)) THEN {} ELSE {<<"descending sort">>})
TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE LET P == Problems IN IF P = {} THEN TRUE ELSE Reject(l, P)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
