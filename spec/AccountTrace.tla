---------------------------- MODULE AccountTrace ----------------------------
(***************************************************************************)
(* Property C01 on recorded matchings: every reference and every hypothesis *)
(* occurrence is accounted for exactly once.  Judged on the observed        *)
(* assignment alone: which of several acceptable references was taken, and  *)
(* the order of the output, are not constrained here.  Records as in        *)
(* MatchTrace.                                                              *)
(***************************************************************************)
EXTENDS Scorers, TraceLib

VARIABLE l

R == Trace[l]
Unit == 1048576

Refs == {R.rs[i] : i \in 1..Len(R.rs)}
Acc(h) ==
  IF R.rule.k = "table"
  THEN {R.pref[h][i][1] : i \in {j \in 1..Len(R.pref[h]) :
                                  R.pref[h][j][1] \in Refs /\ R.pref[h][j][2] < Unit}}
  ELSE {r \in Refs : Accept(R.rule, R.rt[r], R.ht[h])
                     /\ (R.plain \/ Inter(R.rt[r], R.ht[h]) > 0)}

Occ(h) == {p \in 1..Len(R.hs) : R.hs[p] = h}
With(h) == {i \in 1..Len(R.out) : R.out[i][1] = h}
HitsOf(h) == {i \in With(h) : R.out[i][2] # 0}
\* equal occurrences are interchangeable: the k-th hit of a value is its k-th occurrence
Nth(S, k) == CHOOSE p \in S : Cardinality({q \in S : q <= p}) = k
ClaimRank(i) ==
  LET h == R.out[i][1]
  IN Nth(Occ(h), Cardinality({j \in HitsOf(h) : j <= i}))
Claimed(r, p) == \E i \in 1..Len(R.out) :
                   R.out[i][2] = r /\ R.out[i][1] # 0 /\ ClaimRank(i) < p

RefsOK ==
  /\ \A i \in 1..Len(R.out) : R.out[i][2] = 0 \/ R.out[i][2] \in Refs
  /\ \A r \in Refs : Cardinality({i \in 1..Len(R.out) : R.out[i][2] = r}) = 1
MissOK == \A i \in 1..Len(R.out) : R.out[i][1] = 0 =>
             R.out[i][2] # 0 /\ R.out[i][3] = 0 /\ R.out[i][4] = Unit
KnownHyps == \A i \in 1..Len(R.out) : R.out[i][1] = 0 \/ Occ(R.out[i][1]) # {}
HypOK(h) ==
  LET A == Acc(h)
      hits == HitsOf(h)
      fps == With(h) \ hits
      k == Cardinality(hits)
  IN IF A = {}
     THEN hits = {} /\ Cardinality(fps) = Cardinality(Occ(h))
          /\ \A i \in fps : R.out[i][3] = Unit /\ R.out[i][4] = 0
     ELSE /\ fps = {}
          /\ k <= Cardinality(Occ(h))
          /\ \A i \in hits : R.out[i][2] \in A
          /\ \A p \in Occ(h) :
               Cardinality({q \in Occ(h) : q <= p}) > k =>
                  \A r \in A : Claimed(r, p)

Good == /\ RefsOK /\ MissOK /\ KnownHyps
        /\ \A h \in {R.hs[p] : p \in 1..Len(R.hs)} : HypOK(h)

Why == IF ~RefsOK THEN "references" ELSE IF ~MissOK THEN "misses"
       ELSE IF ~KnownHyps THEN "unknown hypothesis"
       ELSE ToString({h \in {R.hs[p] : p \in 1..Len(R.hs)} : ~HypOK(h)})

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(R, "crash") THEN Reject(l, R.crash)
     ELSE Good \/ (~Good /\ Reject(l, Why))
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
