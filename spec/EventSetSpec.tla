---------------------------- MODULE EventSetSpec ----------------------------
(***************************************************************************)
(* The event index (core/EventSet.h and                                    *)
(* core/DocumentBoundingBoxEventSet.h) as a mathematical set of events     *)
(* with insertions, removals, clears and lookups.                          *)
(***************************************************************************)
EXTENDS Events

VARIABLE S          \* the set of stored events

Init == S = {}
Add(e) == S' = S \cup {e}
Drop(e) == S' = S \ {e}
Clear     == S' = {}
Build(es) == S' = Elems(es)      \* range constructor
Fresh     == S' = {}             \* default constructor

(* Observations.                                                            *)
Size == Cardinality(S)
Lookup(p) == Overlapping(S, p)                              \* box events
LookupPlain(p) == IF p \in S THEN <<p>> ELSE <<>>           \* plain locations
=============================================================================
