--------------------------- MODULE EventSetTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of the real event index against EventSetSpec. *)
(* Record: [plain |-> BOOLEAN, ops |-> << [op, e / es, size, res], ... >>].*)
(* A second index T is copied from (k), copied to (l) or exchanged with (x) *)
(* the first one; nothing else touches it.                                   *)
(***************************************************************************)
EXTENDS EventSetSpec, TraceLib

VARIABLES T, l, i
tvars == <<S, T, l, i>>

R == Trace[l]
Op == R.ops[i]

TraceInit == Init /\ T = {} /\ l = 1 /\ i = 1 /\ Consumed(0)

Effect ==
  CASE Op.op = "i" -> Add(Op.e)
    [] Op.op = "r" -> Drop(Op.e)
    [] Op.op = "c" -> Clear
    [] Op.op = "n" -> Fresh
    [] Op.op = "R" -> Build(Op.es)
    [] Op.op = "l" -> S' = T
    [] Op.op = "x" -> S' = T
    [] Op.op \in {"q", "k"} -> UNCHANGED S
Other == T' = IF Op.op \in {"k", "x"} THEN S ELSE T

Agrees ==      \* the observation made after the operation
  /\ Op.size = Cardinality(S')
  /\ Op.op = "q" =>
       Op.res = IF R.plain THEN LookupPlain(Op.e) ELSE Lookup(Op.e)

NextRecord == l' = l + 1 /\ i' = 1 /\ S' = {} /\ T' = {} /\ Consumed(l)

Step ==
  IF i > Len(R.ops) THEN NextRecord
  ELSE \/ /\ Effect /\ Other
          /\ Agrees
          /\ i' = i + 1 /\ l' = l

Mismatch ==
  /\ i <= Len(R.ops)
  /\ ~ENABLED Step
  /\ Reject(l, <<i, Op, "stored", S, "kept", T>>)
  /\ NextRecord

Crash == Has(R, "crash") /\ Reject(l, R.crash) /\ NextRecord

TraceNext == l <= Len(Trace) /\ (IF Has(R, "crash") THEN Crash ELSE Step \/ Mismatch)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
