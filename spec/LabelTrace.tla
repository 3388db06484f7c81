----------------------------- MODULE LabelTrace -----------------------------
(***************************************************************************)
(* Complete runs of the segmentation-based tool, from the labels in its     *)
(* files to the metrics it prints: the machine of KwsEval where a reference *)
(* is acceptable when query and location labels are equal, followed by      *)
(* Metrics.  Record: rt, ht (distinct values [q, d] and [q, d, s]), rf, hf  *)
(* (files), sort, hasset, set, hasgrp, grp (query files as bytes), o        *)
(* (options), v (reported values).                                          *)
(* Labels have no order; equal scores are only ranked deterministically by  *)
(* file order, so that sorted runs must collapse equal scores.              *)
(* copies: the files hold that many copies of the world, with labels of      *)
(* their own; all metrics but the global NDCG are those of the world (law    *)
(* of module Replication).  Lines of other queries than those of the set,    *)
(* which have no influence, may have been added.                             *)
(***************************************************************************)
EXTENDS Metrics, TextFiles, TraceLib

VARIABLES refs, hyps, pos, claimed, result, repeated, phase, l
R == Trace[l]

RefEv(r) == Trace[r[1]].rt[r[2]]
HypEv(h) == Trace[h[1]].ht[h[2]]
CandT(Rs, h) ==
  SetToSeq({r \in Rs : RefEv(r).q = HypEv(h).q /\ RefEv(r).d = HypEv(h).d})
RefLessT(a, b) == a[2] < b[2]
RefQueryT(r) == RefEv(r).q
HypQueryT(h) == HypEv(h).q
HypGreaterT(a, b) == \/ HypEv(a).s > HypEv(b).s
                     \/ HypEv(a).s = HypEv(b).s /\ a[2] > b[2]

K == INSTANCE KwsEval WITH Cand <- CandT, RefLess <- RefLessT, RefQuery <- RefQueryT,
                           HypQuery <- HypQueryT, HypGreater <- HypGreaterT

RefSet(k) == {<<k, Trace[k].rf[i]>> : i \in 1..Len(Trace[k].rf)}
HypSeq(k) == [i \in 1..Len(Trace[k].hf) |-> <<k, Trace[k].hf[i]>>]
Usable(k) == k <= Len(Trace) /\ ~Has(Trace[k], "crash")
TraceInit ==
  /\ l = 1 /\ Consumed(0)
  /\ IF Usable(1) THEN K!ReadInit(RefSet(1), HypSeq(1)) ELSE K!ReadInit({}, <<>>)
NextRecord ==
  /\ l' = l + 1 /\ Consumed(l)
  /\ IF Usable(l + 1) THEN K!ReadNew(RefSet(l + 1), HypSeq(l + 1)) ELSE K!ReadNew({}, <<>>)

GMap == IF R.hasgrp THEN GroupMap(R.grp)
        ELSE IF R.hasset THEN [q \in QuerySet(R.set) |-> q] ELSE <<>>
Matches == [i \in 1..Len(result) |->
  LET e == result[i]
      hyp == e.h > 0
      ref == e.r # <<>>
      q == IF ref THEN RefEv(e.r[1]).q ELSE HypEv(hyps[e.h]).q
  IN [q |-> GroupOf(GMap, q), s |-> IF hyp THEN HypEv(hyps[e.h]).s ELSE 0, hyp |-> hyp, ref |-> ref,
      fp |-> IF hyp /\ ~ref THEN U ELSE 0, fn |-> IF hyp THEN 0 ELSE U]]
Want == <<GAP(Matches, R.o), MAP(Matches, R.o), GNDCG(Matches, R.o), MNDCG(Matches, R.o)>>
Good == LET w == Want IN
  /\ Near(R.v[1], w[1], 14) /\ Near(R.v[2], w[2], 14)
  /\ R.copies = 1 => Near(R.v[3], w[3], 30)
  /\ Near(R.v[4], w[4], 30)

Step == \/ K!Filter(DOMAIN GMap # {}, DOMAIN GMap) /\ l' = l
        \/ K!Rank(R.sort) /\ l' = l
        \/ K!M!Consider /\ l' = l
        \/ K!M!CloseMisses /\ l' = l
        \/ phase = "done" /\ (IF Good THEN TRUE ELSE Reject(l, <<"specified", Want, Matches>>)) /\ NextRecord
Crash == Reject(l, R.crash) /\ NextRecord

TraceNext == l <= Len(Trace) /\ (IF Has(R, "crash") THEN Crash ELSE Step)
TraceSpec == TraceInit /\ [][TraceNext]_<<refs, hyps, pos, claimed, result, repeated, phase, l>>
=============================================================================
