------------------------------ MODULE Metrics -------------------------------
(***************************************************************************)
(* Precision and recall, average precision, NDCG, grouping and sampled      *)
(* curves (core/Assessment.h, core/Statistic.h) over exact integer counts.  *)
(*                                                                          *)
(* A match is [q |-> group or query, s |-> score (any integer), hyp, ref |->*)
(* BOOLEAN, fp, fn |-> error mass in units of 1/U].  A point is the record  *)
(* [fp, fn, nh, nr].  Results are fixed point numbers (Numeric).             *)
(***************************************************************************)
EXTENDS Numeric, FiniteSets, FiniteSetsExt

U == 64       \* unit of the error masses

Point(m) == [fp |-> m.fp, fn |-> m.fn,
             nh |-> IF m.fp > 0 \/ m.fn < U THEN 1 ELSE 0,
             nr |-> IF m.fp < U \/ m.fn > 0 THEN 1 ELSE 0]
Points(ms) == [i \in 1..Len(ms) |-> Point(ms[i])]

AddP(a, b) == [fp |-> a.fp + b.fp, fn |-> a.fn + b.fn, nh |-> a.nh + b.nh, nr |-> a.nr + b.nr]

(* ---------------------------------------------------------- collapsing   *)
(* Maximal runs of consecutive matches with equal scores; all misses count  *)
(* as one score, different from that of any hypothesis.                     *)
SameScore(a, b) == a.hyp = b.hyp /\ (a.hyp => a.s = b.s)
Collapse(ms) ==
  LET step(acc, m) ==
        IF acc # <<>> /\ SameScore(acc[Len(acc)].last, m)
        THEN [acc EXCEPT ![Len(acc)] = [last |-> m, p |-> AddP(@.p, Point(m))]]
        ELSE Append(acc, [last |-> m, p |-> Point(m)])
      r == FoldLeft(step, <<>>, ms)
  IN [i \in 1..Len(r) |-> r[i].p]

PointsOf(ms, collapse) == IF collapse THEN Collapse(ms) ELSE Points(ms)

(* ---------------------------------------------------- precision, recall  *)
SumP(ps) == FoldLeft(AddP, [fp |-> 0, fn |-> 0, nh |-> 0, nr |-> 0], ps)
TR(ps) == SumP(ps).nr

(* Running sums after each point.                                           *)
Cum(ps) ==
  LET step(acc, p) == Append(acc, IF acc = <<>> THEN p ELSE AddP(acc[Len(acc)], p))
  IN FoldLeft(step, <<>>, ps)

RawPrec(c) == IF c.nh > 0 THEN FixDiv(U * c.nh - c.fp, U * c.nh) ELSE S
(* Recall as the exact fraction <<numerator, denominator>>.                  *)
RecFrac(c, tr) == IF tr > 0 THEN <<U * c.nr - c.fn, U * tr>> ELSE <<1, 1>>

Interpolate(pr) ==
  LET n == Len(pr)
      Mx2(a, b) == IF a > b THEN a ELSE b
      step(acc, i) == <<IF acc = <<>> THEN pr[n] ELSE Mx2(acc[1], pr[n - i + 1])>> \o acc
  IN FoldLeft(step, <<>>, [i \in 1..n |-> i])

Precision(ps, interp) ==
  LET c == Cum(ps)
      raw == [i \in 1..Len(ps) |-> RawPrec(c[i])]
  IN IF interp THEN Interpolate(raw) ELSE raw
RecallFracs(ps) == LET c == Cum(ps)
                       tr == TR(ps)
                   IN [i \in 1..Len(ps) |-> RecFrac(c[i], tr)]
Recall(ps) == LET f == RecallFracs(ps)
              IN [i \in 1..Len(ps) |-> FixDiv(f[i][1], f[i][2])]

(* ------------------------------------------------- average precision     *)
(* Sum over the points of the recall increase times the precision (or its    *)
(* mean with that of the previous point).                                    *)
AP(ps, interp, trapez) ==
  IF Len(ps) = 0 THEN 0
  ELSE LET tr == TR(ps)
           pr == Precision(ps, interp)
           rc == RecallFracs(ps)
           D == rc[1][2]
           val(i) == IF trapez /\ i > 1 THEN (pr[i] + pr[i - 1]) \div 2 ELSE pr[i]
           inc(i) == rc[i][1] - (IF i > 1 THEN rc[i - 1][1] ELSE 0)
           step(acc, i) ==
             IF inc(i) = 0 THEN acc
             ELSE LET t == MulDiv(val(i), inc(i), D)
                      r == acc[2] + t[2]
                  IN <<acc[1] + t[1] + r \div D, r % D>>
       IN FoldLeft(step, <<0, 0>>, [i \in 1..Len(ps) |-> i])[1]

(* The same from the hits of each point instead of the increase of recall:   *)
(* equal to AP when every point has as many matched hypotheses as references. *)
APHits(ps, interp, trapez) ==
  LET tr == TR(ps)
      pr == Precision(ps, interp)
      D == U * tr
      val(i) == IF trapez /\ i > 1 THEN (pr[i] + pr[i - 1]) \div 2 ELSE pr[i]
      hit(i) == U * ps[i].nh - ps[i].fp
      step(acc, i) ==
        IF hit(i) = 0 THEN acc
        ELSE LET t == MulDiv(val(i), hit(i), D)
                 r == acc[2] + t[2]
             IN <<acc[1] + t[1] + r \div D, r % D>>
  IN IF tr = 0 THEN 0 ELSE FoldLeft(step, <<0, 0>>, [i \in 1..Len(ps) |-> i])[1]

(* --------------------------------------------------------------- NDCG    *)
SumDisc(a, b) == FoldLeft(LAMBDA x, y : x + y, 0, [i \in 1..b - a + 1 |-> Disc[a + i - 1]])
Ratio(a, b) == IF b > 190000000 THEN FixDiv(a \div 8, b \div 8) ELSE FixDiv(a, b)
NDCG(ps) ==
  LET tr == TR(ps)
      step(acc, p) ==      \* <<dcg, ranks used>>
        IF p.nh = 0 THEN acc
        ELSE LET g == Exp2m1(FixDiv(U * p.nh - p.fp, U * p.nh))
                 d == IF g = S THEN SumDisc(acc[2] + 1, acc[2] + p.nh)
                      ELSE FoldLeft(LAMBDA x, j : x + MulFix(g, Disc[acc[2] + j]), 0, [j \in 1..p.nh |-> j])
             IN <<acc[1] + (IF g = 0 THEN 0 ELSE d), acc[2] + p.nh>>
  IN IF tr = 0 THEN 0
     ELSE Ratio(FoldLeft(step, <<0, 0>>, ps)[1], SumDisc(1, tr))

(* ------------------------------------------------------------- groups    *)
Groups(ms) == {ms[i].q : i \in 1..Len(ms)}
OfGroup(ms, g) == SelectSeq(ms, LAMBDA m : m.q = g)
(* Mean over the groups of the fixed point values f(matches of the group).   *)
MeanOver(ms, f(_)) ==
  LET G == SetToSeq(Groups(ms))
      n == Len(G)
      step(acc, g) == LET v == f(OfGroup(ms, g))
                          r == acc[2] + (v % n)
                      IN <<acc[1] + v \div n + r \div n, r % n>>
  IN IF n = 0 THEN 0 ELSE FoldLeft(step, <<0, 0>>, G)[1]

GAP(ms, o)   == AP(PointsOf(ms, o.c), o.i, o.t)
MAP(ms, o)   == MeanOver(ms, LAMBDA x : AP(PointsOf(x, o.c), o.i, o.t))
GNDCG(ms, o) == NDCG(PointsOf(ms, o.c))
MNDCG(ms, o) == MeanOver(ms, LAMBDA x : NDCG(PointsOf(x, o.c)))

(* Hypotheses first, by decreasing score; the order of equal ones stays.      *)
SortDesc(ms) ==
  LET hyps == {i \in 1..Len(ms) : ms[i].hyp}
      before(i, j) == \/ ms[i].s > ms[j].s
                      \/ (ms[i].s = ms[j].s /\ i < j)
      perm == SetToSortSeq(hyps, before)
  IN [i \in 1..Len(perm) |-> ms[perm[i]]] \o SelectSeq(ms, LAMBDA m : ~m.hyp)
TieFree(ms) == \A i, j \in 1..Len(ms) : (i # j /\ ms[i].hyp /\ ms[j].hyp) => ms[i].s # ms[j].s
SameMisses(ms) == \A i, j \in 1..Len(ms) : (~ms[i].hyp /\ ~ms[j].hyp) => Point(ms[i]) = Point(ms[j])

(* ----------------------------------------------------- sampled curves    *)
(* Precision at recall k/m: that of the first point reaching it, on the line *)
(* from the previous point when linear; 0 beyond the last recall.            *)
SampleAt(rc, pr, k, m, linear) ==
  LET reach == {j \in 1..Len(rc) : rc[j][1] * m >= k * rc[j][2]}
  IN IF reach = {} THEN 0
     ELSE LET j == Min(reach)
          IN IF ~linear \/ j = 1 THEN pr[j]
             ELSE LET D == rc[j][2]
                      num == rc[j][1] * m - k * D
                      den == (rc[j][1] - rc[j - 1][1]) * m
                      w == FixDiv(num, den)
                  IN MulFix(w, pr[j - 1]) + MulFix(S - w, pr[j])

Curve(ms, n, o) ==
  IF n < 2 THEN <<>>
  ELSE LET ps == PointsOf(ms, o.c)
           pr == Precision(ps, o.i)
           rc == RecallFracs(ps)
       IN [k \in 1..n |-> SampleAt(rc, pr, k - 1, n - 1, o.t)]
CurveOf(ps, n, interp, linear) ==
  IF n < 2 THEN <<>>
  ELSE LET pr == Precision(ps, interp)
           rc == RecallFracs(ps)
       IN [k \in 1..n |-> SampleAt(rc, pr, k - 1, n - 1, linear)]
MeanCurve(ms, n, o) ==
  IF n < 2 THEN <<>>
  ELSE LET G == SetToSeq(Groups(ms))
           C == [g \in 1..Len(G) |-> Curve(OfGroup(ms, G[g]), n, o)]
       IN [k \in 1..n |-> IF Len(G) = 0 THEN 0
                          ELSE FoldLeft(LAMBDA a, g : a + C[g][k] \div Len(G), 0, [g \in 1..Len(G) |-> g])]
CurveX(n) == [k \in 1..n |-> FixDiv(k - 1, n - 1)]

(* ----------------------------------------------------------- closeness   *)
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
NearSeq(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], tol)
=============================================================================
