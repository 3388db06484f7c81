------------------------------ MODULE RankGen -------------------------------
(***************************************************************************)
(* Every hypothesis file of bounded length over values that differ from     *)
(* each other in a single attribute: checks the laws of the ranking and     *)
(* prints the expected rankings for replay.                                  *)
(***************************************************************************)
EXTENDS Events, Json

CONSTANTS N, Show, World

V(s, q, d, x, y, w, h) == [s |-> s, q |-> <<q>>, d |-> <<d>>, x |-> x, y |-> y, w |-> w, h |-> h]
Values ==
  CASE World = 1 -> << V(1, 97, 100, 2, 2, 2, 2), V(2, 97, 100, 2, 2, 2, 2), V(1, 98, 100, 2, 2, 2, 2),
                       V(1, 97, 99, 9, 2, 2, 2), V(1, 97, 100, 10, 2, 2, 2), V(-1, 97, 100, 2, 2, 2, 2) >>
    [] World = 2 -> << V(1, 97, 100, 2, 2, 2, 2), V(1, 97, 100, 2, 10, 2, 2), V(1, 97, 100, 2, 2, 10, 1),
                       V(1, 97, 100, 2, 2, 2, 10), V(1, 97, 100, 2, 2, 3, 2), V(0, 98, 100, 9, 9, 9, 9) >>

Greater(a, b) == \/ Values[a].s > Values[b].s
                 \/ Values[a].s = Values[b].s /\ EvLess(Values[b], Values[a])
K == INSTANCE Ranking WITH HypGreater <- Greater

VARIABLE hf
Init == hf = <<>>
Next == Len(hf) < N /\ \E v \in 1..Len(Values) : hf' = Append(hf, v)
Spec == Init /\ [][Next]_hf

Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Laws == \A sort \in {"desc", "asc"} :
  LET r == K!Ranking(hf, sort) IN
  /\ Len(r) = Len(hf) /\ \A v \in 1..Len(Values) : Count(r, v) = Count(hf, v)
  /\ \A i \in 1..Len(r) - 1 : IF sort = "desc" THEN ~Greater(r[i + 1], r[i]) ELSE ~Greater(r[i], r[i + 1])
  \* swapping neighbours changes nothing: the ranking depends on the multiset only
  /\ \A i \in 1..Len(hf) - 1 : K!Ranking([hf EXCEPT ![i] = hf[i + 1], ![i + 1] = hf[i]], sort) = r
  /\ K!Ranking(hf, "none") = hf
ASSUME \A a, b \in 1..Len(Values) : a # b => (Greater(a, b) <=> ~Greater(b, a))
ASSUME PrintT("GEN " \o ToJson([values |-> Values]))

Emit == Show /\ Len(hf) > 0 =>
  PrintT("GEN " \o ToJson([hf |-> hf, desc |-> K!Ranking(hf, "desc"), asc |-> K!Ranking(hf, "asc")]))
=============================================================================
