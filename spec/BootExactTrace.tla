--------------------------- MODULE BootExactTrace ---------------------------
(***************************************************************************)
(* Intervals of complete runs against the exact distribution of the          *)
(* statistics over all samples of the dumped matches (small data).          *)
(*  Record: [ms, groups, o, runs |-> << [R, a, b, v, iv] >>]                 *)
(* Each end must be twice the observed value minus the statistic of some      *)
(* possible sample, and with R repetitions that statistic must lie near the   *)
(* tail position of the exact distribution (Slack percent).                  *)
(***************************************************************************)
EXTENDS Metrics, TextFiles, TraceLib
CONSTANT Slack
VARIABLE l
T == Trace[l]
B == INSTANCE Bootstrap WITH Orig <- <<>>, Stat <- LAMBDA s : 0, Obs <- 0, MaxR <- 0, Den <- 1,
                             phase <- "", sample <- <<>>, diffs <- <<>>

GM == GroupMap(T.groups)
Fact(n) == FoldLeft(LAMBDA x, y : x * y, 1, [i \in 1..n |-> i])
Pow(x, n) == FoldLeft(LAMBDA y, i : y * x, 1, [i \in 1..n |-> i])
L == 108        \* a multiple of n^n for n in 1..3
\* the draws from a group of n members as sorted lists of indices with their weights (of n^n, scaled to L)
Draws(n) ==
  LET sorted == {f \in [1..n -> 1..n] : \A i \in 1..n - 1 : f[i] <= f[i + 1]}
      times(f, k) == Cardinality({i \in 1..n : f[i] = k})
      ways(f) == Fact(n) \div FoldLeft(LAMBDA x, k : x * Fact(times(f, k)), 1, [k \in 1..n |-> k])
  IN {[f |-> f, w |-> ways(f) * (L \div Pow(n, n))] : f \in sorted}

\* decreasing score, misses last
Before(a, b) == IF a.hyp /\ b.hyp THEN a.s > b.s ELSE a.hyp /\ ~b.hyp
Order(ms) == SortSeq(ms, Before)

Distribution(ms, groups, o) ==      \* <<weight, values of the four metrics>> for all samples
  LET G == SetToSeq({GroupOf(GM, ms[i].q) : i \in 1..Len(ms)})
      mem(g) == SelectSeq(ms, LAMBDA m : GroupOf(GM, m.q) = G[g])
      options == UNION {{[g |-> g, f |-> d.f, w |-> d.w] : d \in Draws(Len(mem(g)))} : g \in 1..Len(G)}
      \* a sample: one option per place; matches get their place as group
      flat(x) == FoldLeft(LAMBDA acc, i : acc \o [j \in 1..Len(x[i].f) |-> [mem(x[i].g)[x[i].f[j]] EXCEPT !.q = i]], <<>>, [i \in 1..Len(G) |-> i])
      weight(x) == FoldLeft(LAMBDA y, i : y * x[i].w, 1, [i \in 1..Len(G) |-> i])
      value(x) == LET s == Order(flat(x)) IN <<GAP(s, o), MAP(s, o), GNDCG(s, o), MNDCG(s, o)>>
      all == SetToSeq([1..Len(G) -> options])
  IN [k \in 1..Len(all) |-> <<weight(all[k])>> \o value(all[k])]

Total(D) == FoldLeft(LAMBDA x, d : x + d[1], 0, D)
\* percent of the distribution with value at most / below x
AtMost(D, m, x) ==
  LET total == Total(D)
      part == FoldLeft(LAMBDA y, d : y + IF d[m + 1] <= x THEN d[1] ELSE 0, 0, D)
  IN IF total < 20000000 THEN (part * 100) \div total ELSE part \div (total \div 100)
Tol == 110
Place(D, m, x, pos, R) ==      \* the statistic x at the given position of R sorted ones
  /\ \E k \in 1..Len(D) : Near(D[k][m + 1], x, Tol)
  /\ R >= 1000 => LET p == (pos * 100) \div R IN
       /\ AtMost(D, m, x + Tol) >= p - Slack
       /\ AtMost(D, m, x - Tol) <= p + Slack
RunOk(D, r) == \A m \in 1..4 : r.iv[m] # <<>> =>
  /\ Place(D, m, 2 * r.v[m] - r.iv[m][1], B!LowPos(r.R, r.a, r.b), r.R)
  /\ Place(D, m, 2 * r.v[m] - r.iv[m][2], B!UpPos(r.R, r.a, r.b), r.R)

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE LET D == TLCEval(Distribution(T.ms, T.groups, T.o))
              bad == {i \in 1..Len(T.runs) : ~RunOk(D, T.runs[i])}
          IN IF bad = {} THEN TRUE ELSE Reject(l, <<"runs", bad, "samples", Len(D)>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
