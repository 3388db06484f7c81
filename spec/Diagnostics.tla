---------------------------- MODULE Diagnostics -----------------------------
(***************************************************************************)
(* What a run says about itself on standard error (property C24), as a set   *)
(* of facts <<what, number>>.                                               *)
(*   rq, hq   queries of the reference and hypothesis events, in file order   *)
(*   hasset, set, hasgrp, grp   the query files (bytes)                      *)
(*   sort     ranking criterion;  eff   number of hypotheses in the matches  *)
(***************************************************************************)
EXTENDS TextFiles

Map(R) == IF R.hasgrp THEN GroupMap(R.grp) ELSE IF R.hasset THEN [q \in QuerySet(R.set) |-> q] ELSE <<>>
Kept(events, m) == IF DOMAIN m = {} THEN events ELSE SelectSeq(events, LAMBDA q : q \in DOMAIN m)
GroupsOf(m) == {m[q] : q \in DOMAIN m}

Facts(R) ==
  LET m == Map(R)
      kr == Kept(R.rq, m)
      kh == Kept(R.hq, m)
  IN {<<"references", Len(R.rq)>>, <<"hypotheses", Len(R.hq)>>}
     \cup (IF R.hasgrp \/ R.hasset THEN {<<"queries", Cardinality(DOMAIN m)>>} ELSE {})
     \cup (IF R.hasgrp /\ DOMAIN m # {} THEN {<<"groups", Cardinality(GroupsOf(m))>>} ELSE {})
     \cup (IF Len(kr) # Len(R.rq) THEN {<<"kept references", Len(kr)>>} ELSE {})
     \cup (IF Len(kh) # Len(R.hq) THEN {<<"kept hypotheses", Len(kh)>>} ELSE {})
     \cup (IF R.sort \notin {"desc", "asc", "none"} THEN {<<"unsorted", 0>>} ELSE {})
     \cup (IF R.eff < Len(kh) THEN {<<"effective", R.eff>>} ELSE {})
=============================================================================
