----------------------------- MODULE ToolTrace ------------------------------
(***************************************************************************)
(* Checks complete runs of the box-based tool against KwsEval, from the     *)
(* lines of its input files to the matches it dumps.  Record:               *)
(*   rt, ht       distinct reference / hypothesis values (ht with score s   *)
(*                and number t of the printed form)                         *)
(*   rf, hf       the files, as numbers of values                           *)
(*   sort         ranking criterion                                         *)
(*   hasset, set, hasgrp, grp   the query-set and query-groups files        *)
(*   out, rep     the dump: << <<t, ref, fp, fn>>, ... >>                   *)
(*   same         the files may hold many copies of the world in documents  *)
(*                of their own; then the dump of one copy is given, and     *)
(*                whether those of the others are the same                  *)
(* A run is accepted if the machine produces the dump step by step.          *)
(***************************************************************************)
EXTENDS Scorers, TextFiles, TraceLib

VARIABLES refs, hyps, pos, claimed, result, repeated, phase, l

R == Trace[l]
Unit == 1048576
Rule == [k |-> "ioh", n |-> 1, d |-> 2]

RefEv(r) == Trace[r[1]].rt[r[2]]
HypEv(h) == Trace[h[1]].ht[h[2]]

CandT(Rs, h) ==
  LET e == HypEv(h)
      A == {r \in Rs : Accept(Rule, RefEv(r), e) /\ Inter(RefEv(r), e) > 0}
      T == {<<Inter(RefEv(r), e), r>> : r \in A}
      before(s, t) == \/ s[1] > t[1]
                      \/ s[1] = t[1] /\ EvLess(RefEv(t[2]), RefEv(s[2]))
      o == SortSeq(SetToSeq(T), before)
  IN [i \in 1..Len(o) |-> o[i][2]]
RefLessT(a, b) == EvLess(RefEv(a), RefEv(b))
RefQueryT(r) == RefEv(r).q
HypQueryT(h) == HypEv(h).q
HypGreaterT(a, b) == \/ HypEv(a).s > HypEv(b).s
                     \/ HypEv(a).s = HypEv(b).s /\ EvLess(HypEv(b), HypEv(a))

K == INSTANCE KwsEval WITH Cand <- CandT, RefLess <- RefLessT, RefQuery <- RefQueryT,
                           HypQuery <- HypQueryT, HypGreater <- HypGreaterT

Shown(e) ==
  LET h == IF e.h = 0 THEN 0 ELSE HypEv(hyps[e.h]).t
      r == IF e.r = <<>> THEN 0 ELSE e.r[1][2]
  IN IF h = 0 THEN <<0, r, 0, Unit>> ELSE IF r = 0 THEN <<h, 0, Unit, 0>> ELSE <<h, r, 0, 0>>

Agrees(done) ==
  /\ Len(result') <= Len(R.out)
  /\ \A i \in Len(result) + 1..Len(result') : Shown(result'[i]) = R.out[i]
  /\ Len(repeated') <= Len(R.rep)
  /\ \A i \in Len(repeated) + 1..Len(repeated') : Shown(repeated'[i]) = R.rep[i]
  /\ done => Len(result') = Len(R.out) /\ Len(repeated') = Len(R.rep)

RefSet(k) == {<<k, Trace[k].rf[i]>> : i \in 1..Len(Trace[k].rf)}
HypSeq(k) == [i \in 1..Len(Trace[k].hf) |-> <<k, Trace[k].hf[i]>>]
Usable(k) == k <= Len(Trace) /\ ~Has(Trace[k], "crash")
TraceInit ==
  /\ l = 1 /\ Consumed(0)
  /\ IF Usable(1) THEN K!ReadInit(RefSet(1), HypSeq(1)) ELSE K!ReadInit({}, <<>>)
NextRecord ==
  /\ l' = l + 1 /\ Consumed(l)
  /\ IF Usable(l + 1) THEN K!ReadNew(RefSet(l + 1), HypSeq(l + 1)) ELSE K!ReadNew({}, <<>>)

(* A query-groups file supersedes a query-set file; no query, no filter.      *)
Listed == IF R.hasgrp THEN DOMAIN GroupMap(R.grp) ELSE IF R.hasset THEN QuerySet(R.set) ELSE {}
Step == \/ K!Filter(Listed # {}, Listed) /\ l' = l
        \/ K!Rank(R.sort) /\ l' = l
        \/ K!M!Consider /\ Agrees(FALSE) /\ l' = l
        \/ K!M!CloseMisses /\ Agrees(TRUE) /\ l' = l
        \/ phase = "done" /\ R.same /\ NextRecord
Mismatch == ~ENABLED Step /\ Reject(l, <<"after", pos, phase, hyps, result, repeated>>) /\ NextRecord
Crash == Reject(l, R.crash) /\ NextRecord

TraceNext == l <= Len(Trace) /\ (IF Has(R, "crash") THEN Crash ELSE Step \/ Mismatch)
TraceSpec == TraceInit /\ [][TraceNext]_<<refs, hyps, pos, claimed, result, repeated, phase, l>>
=============================================================================
