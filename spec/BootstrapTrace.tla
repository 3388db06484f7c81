--------------------------- MODULE BootstrapTrace ---------------------------
(***************************************************************************)
(* Recorded uses of the sampler and of the interval computation.            *)
(*  [orig, samples, reach]: groups of numbered matches and the samples drawn; *)
(*    reach: there are so many that every choice must have occurred; again:     *)
(*    what another sampler with the same seed drew.                           *)
(*  [sizes, distinct, gdistinct, outside, wrong]: very many samples of many or   *)
(*    large groups, in numbers: with so many draws every member of every group    *)
(*    has been drawn, none but members, in samples of the right shape.         *)
(*  [bySeed]: samples drawn with different seeds.                           *)
(*  [obs, vals, a, b, v, lo, hi]: observed value, statistics of the samples   *)
(*    in the order drawn, level, what was returned.                          *)
(*  [runs]: runs of a tool on the same data, each [flags, R, seed, a, b, point,*)
(*    v, iv] - the four values as printed and as fixed point numbers (units of *)
(*    1e-7); iv, per metric, <<>> or <<lo, hi, printed text>>.                *)
(***************************************************************************)
EXTENDS TraceLib, SequencesExt, FiniteSets
B == INSTANCE Bootstrap WITH Orig <- <<>>, Stat <- LAMBDA s : 0, Obs <- 0, MaxR <- 0, Den <- 1,
                             phase <- "", sample <- <<>>, diffs <- <<>>
VARIABLE l
T == Trace[l]
One == 10000000

\* every sequence of groups, and from every group every sequence of its members
Drawn == {T.samples[s][i] : s \in 1..Len(T.samples), i \in 1..Len(T.orig)}
Choice(s) == [i \in 1..Len(T.orig) |-> CHOOSE q \in 1..Len(T.orig) : s[i][1] \in {T.orig[q][k] : k \in 1..Len(T.orig[q])}]
Reached ==
  /\ \A q \in 1..Len(T.orig) : LET n == Len(T.orig[q]) IN \A f \in [1..n -> 1..n] : [k \in 1..n |-> T.orig[q][f[k]]] \in Drawn
  /\ LET n == Len(T.orig) IN {Choice(T.samples[s]) : s \in 1..Len(T.samples)} = [1..n -> 1..n]
SamplerGood == /\ \A s \in 1..Len(T.samples) : B!IsSample(T.orig, T.samples[s])
               /\ T.reach => Reached
               /\ T.again = T.samples
Total == FoldLeft(LAMBDA a, b : a + b, 0, T.sizes)
BigGood == T.distinct = Total /\ T.gdistinct = Len(SelectSeq(T.sizes, LAMBDA n : n > 0)) /\ T.outside = 0 /\ T.wrong = 0
SeedsGood == \E i \in 1..Len(T.bySeed) : T.bySeed[i] # T.bySeed[1]

IntervalWant == B!Interval(T.obs, [i \in 1..Len(T.vals) |-> T.vals[i] - T.obs], T.a, T.b)
IntervalGood == LET w == IntervalWant IN T.v = T.obs /\ <<T.lo, T.hi>> = w

RunGood(r) == \A m \in 1..4 :
  /\ r.flags[m] = (r.iv[m] # <<>>)
  /\ r.flags[m] => /\ r.iv[m][1] <= r.iv[m][2]
                   /\ r.R = 0 => r.iv[m][1] = r.v[m] /\ r.iv[m][2] = r.v[m]
                   /\ r.R = 1 \/ r.a = r.b => r.iv[m][1] = r.iv[m][2]
                   \* every end is twice the observed value minus a value in [0, 1]
                   /\ r.iv[m][1] >= 2 * r.v[m] - One - 60 /\ r.iv[m][2] <= 2 * r.v[m] + 60
                   /\ r.iv[m][2] >= 2 * r.v[m] - One - 60 /\ r.iv[m][1] <= 2 * r.v[m] + 60
PairGood(r, s) == \A m \in 1..4 :
  /\ r.point[m] = s.point[m]
  /\ r.flags[m] /\ s.flags[m] /\ r.R = s.R /\ r.seed = s.seed =>
       /\ r.a * s.b = s.a * r.b => r.iv[m] = s.iv[m]
       /\ r.a * s.b <= s.a * r.b => r.iv[m][1] <= s.iv[m][1] /\ s.iv[m][2] <= r.iv[m][2]
\* rich data and many seeds: they cannot all agree
Distinct == \A m \in 1..4 : \E i \in 1..Len(T.runs) : T.runs[i].iv[m] # T.runs[1].iv[m]
RunsGood == (Has(T, "distinct") => Distinct) /\ \A i \in 1..Len(T.runs) : RunGood(T.runs[i]) /\ \A j \in 1..Len(T.runs) : PairGood(T.runs[i], T.runs[j])

Good == IF Has(T, "sizes") THEN BigGood ELSE IF Has(T, "orig") THEN SamplerGood ELSE IF Has(T, "bySeed") THEN SeedsGood ELSE IF Has(T, "runs") THEN RunsGood ELSE IntervalGood
Why == IF Has(T, "sizes") THEN <<"big samples", Total>> ELSE IF Has(T, "orig") THEN <<"sampler">> ELSE IF Has(T, "bySeed") THEN <<"the seed has no effect">>
       ELSE IF Has(T, "runs") THEN <<"runs", {i \in 1..Len(T.runs) : ~RunGood(T.runs[i])},
                                     {ij \in (1..Len(T.runs)) \X (1..Len(T.runs)) : ~PairGood(T.runs[ij[1]], T.runs[ij[2]])}>>
       ELSE <<"interval", IntervalWant>>
TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE IF Good THEN TRUE ELSE Reject(l, Why)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
