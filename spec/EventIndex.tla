----------------------------- MODULE EventIndex -----------------------------
(***************************************************************************)
(* The data structure the implementation uses for document boxes: a map    *)
(* query -> document -> set of events plus a counter that is maintained    *)
(* incrementally.  TLC checks that it refines the mathematical set of      *)
(* EventSetSpec, that the counter never drifts and that a lookup confined  *)
(* to the probe's bucket loses nothing.                                    *)
(***************************************************************************)
EXTENDS Events, TLC

CONSTANT Universe        \* the events used in histories

VARIABLES map,           \* <<q, d>> -> set of events, only buckets ever used
          count

vars == <<map, count>>

U1 == { [q |-> <<97>>, d |-> <<100>>, x |-> 0, y |-> 0, w |-> 4, h |-> 4],
        [q |-> <<97>>, d |-> <<100>>, x |-> 2, y |-> 0, w |-> 4, h |-> 4],
        [q |-> <<97>>, d |-> <<101>>, x |-> 0, y |-> 0, w |-> 4, h |-> 4],
        [q |-> <<98>>, d |-> <<100>>, x |-> 0, y |-> 0, w |-> 4, h |-> 4],
        [q |-> <<97>>, d |-> <<100>>, x |-> 6, y |-> 0, w |-> 2, h |-> 2] }

Bucket(e) == <<e.q, e.d>>
Get(b) == IF b \in DOMAIN map THEN map[b] ELSE {}
Put(b, s) == [k \in DOMAIN map \cup {b} |-> IF k = b THEN s ELSE map[k]]

Init == map = <<>> /\ count = 0
Add(e) ==
  /\ map' = Put(Bucket(e), Get(Bucket(e)) \cup {e})
  /\ count' = IF e \in Get(Bucket(e)) THEN count ELSE count + 1
Drop(e) ==
  /\ map' = IF Bucket(e) \in DOMAIN map THEN Put(Bucket(e), Get(Bucket(e)) \ {e}) ELSE map
  /\ count' = IF e \in Get(Bucket(e)) THEN count - 1 ELSE count
Clear == map' = <<>> /\ count' = 0

Next == \/ \E e \in Universe : Add(e) \/ Drop(e)
        \/ Clear
Spec == Init /\ [][Next]_vars

Content == UNION {map[b] : b \in DOMAIN map}
Abs == INSTANCE EventSetSpec WITH S <- Content
AbsNext == \/ \E e \in Universe : Abs!Add(e) \/ Abs!Drop(e)
           \/ Abs!Clear
Refines == Abs!Init /\ [][AbsNext]_Content

CounterExact == count = Abs!Size
BucketsSuffice ==
  \A p \in Universe : Overlapping(Get(Bucket(p)), p) = Abs!Lookup(p)
LookupLaws ==
  \A p \in Universe :
    LET r == Abs!Lookup(p) IN
    /\ Elems(r) = {e \in Content : e.q = p.q /\ e.d = p.d /\ Inter(e, p) > 0}
    /\ Len(r) = Cardinality(Elems(r))
    /\ \A i \in 1..Len(r) - 1 :
         \/ Inter(r[i], p) > Inter(r[i+1], p)
         \/ Inter(r[i], p) = Inter(r[i+1], p) /\ EvLess(r[i+1], r[i])
=============================================================================
