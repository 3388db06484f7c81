----------------------------- MODULE MatchTrace -----------------------------
(***************************************************************************)
(* Checks recorded runs of the matcher against Matching.  One record is one *)
(* call: rule (how a pair is accepted), rt and ht (the distinct reference   *)
(* and hypothesis values), hs (the ranking, by number of value), and what   *)
(* came out: out and rep, sequences of <<hyp, ref, fp, fn>>.  A rule of kind*)
(* "table" lists the acceptable references of each hypothesis explicitly.   *)
(*                                                                          *)
(* The machine of Matching is stepped along the observed result: each       *)
(* Consider must produce exactly the next observed entries.                 *)
(***************************************************************************)
EXTENDS Scorers, TraceLib

VARIABLES refs, hyps, pos, claimed, result, repeated, phase, l

R == Trace[l]
Unit == 1048576

(* References and hypotheses are pairs <<record, number of the value>>, so   *)
(* that their attributes do not depend on the state.                         *)
RefEv(r) == Trace[r[1]].rt[r[2]]
HypEv(h) == Trace[h[1]].ht[h[2]]

CandT(Rs, h) ==
  LET rec == Trace[h[1]] IN
  IF rec.rule.k = "table"
  THEN LET c == SelectSeq(rec.pref[h[2]], LAMBDA p : <<h[1], p[1]>> \in Rs /\ p[2] < Unit)
       IN [i \in 1..Len(c) |-> <<h[1], c[i][1]>>]
  ELSE LET e == HypEv(h)
           A == {r \in Rs : Accept(rec.rule, RefEv(r), e)
                            /\ (rec.plain \/ Inter(RefEv(r), e) > 0)}
           T == {<<IF rec.plain THEN 0 ELSE Inter(RefEv(r), e), r>> : r \in A}
           before(s, t) == \/ s[1] > t[1]
                           \/ s[1] = t[1] /\ EvLess(RefEv(t[2]), RefEv(s[2]))
           o == SortSeq(SetToSeq(T), before)
       IN [i \in 1..Len(o) |-> o[i][2]]

RefLessT(a, b) == IF Trace[a[1]].rule.k = "table" THEN a[2] < b[2] ELSE EvLess(RefEv(a), RefEv(b))

M == INSTANCE Matching WITH Cand <- CandT, RefLess <- RefLessT

PairErr(h, r) ==
  IF R.rule.k = "table"
  THEN LET p == R.pref[h][CHOOSE i \in 1..Len(R.pref[h]) : R.pref[h][i][1] = r]
       IN <<p[2], p[3]>>
  ELSE Errors(R.rule, R.rt[r], R.ht[h], Unit)

(* What the entry e of the machine looks like from outside.                 *)
Shown(e) ==
  LET h == IF e.h = 0 THEN 0 ELSE hyps[e.h][2]
      r == IF e.r = <<>> THEN 0 ELSE e.r[1][2]
      x == IF h = 0 THEN <<0, Unit>>
           ELSE IF r = 0 THEN <<Unit, 0>>
           ELSE PairErr(h, r)
  IN <<h, r, x[1], x[2]>>

Agrees(done) ==
  /\ Len(result') <= Len(R.out)
  /\ \A i \in Len(result) + 1..Len(result') : Shown(result'[i]) = R.out[i]
  /\ Len(repeated') <= Len(R.rep)
  /\ \A i \in Len(repeated) + 1..Len(repeated') : Shown(repeated'[i]) = R.rep[i]
  /\ done => Len(result') = Len(R.out) /\ Len(repeated') = Len(R.rep)

RefSet(k) == {<<k, Trace[k].rs[i]>> : i \in 1..Len(Trace[k].rs)}
HypSeq(k) == [i \in 1..Len(Trace[k].hs) |-> <<k, Trace[k].hs[i]>>]
Load(k) == IF k <= Len(Trace) /\ ~Has(Trace[k], "crash")
           THEN M!Restart(RefSet(k), HypSeq(k))
           ELSE M!Restart({}, <<>>)
TraceInit ==
  /\ l = 1 /\ Consumed(0)
  /\ IF Len(Trace) > 0 /\ ~Has(Trace[1], "crash")
     THEN M!Start(RefSet(1), HypSeq(1))
     ELSE M!Start({}, <<>>)

NextRecord == l' = l + 1 /\ Load(l + 1) /\ Consumed(l)

Step == \/ M!Consider /\ Agrees(FALSE) /\ l' = l
        \/ M!CloseMisses /\ Agrees(TRUE) /\ l' = l
        \/ phase = "done" /\ NextRecord

Mismatch == ~ENABLED Step /\ Reject(l, <<"after", pos, phase, result, repeated>>) /\ NextRecord
Crash == Reject(l, R.crash) /\ NextRecord

TraceNext == l <= Len(Trace) /\ (IF Has(R, "crash") THEN Crash ELSE Step \/ Mismatch)
TraceSpec == TraceInit /\ [][TraceNext]_<<refs, hyps, pos, claimed, result, repeated, phase, l>>
=============================================================================
