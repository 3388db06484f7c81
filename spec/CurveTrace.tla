----------------------------- MODULE CurveTrace -----------------------------
(***************************************************************************)
(* Checks recorded calls of the metric functions (core/Assessment.h) on     *)
(* lists of matches or of error counts against Metrics.  Record:            *)
(*   ms (matches) or es (points [fp, fn, nh, nr]); pts, col the points the  *)
(*   code made of the matches, plain and collapsed; raw, cv the curves and  *)
(*   values it computed for them; raw2, cv2 the same obtained from the      *)
(*   matches directly (optional).                                           *)
(*   n the points at which the curves were sampled (cx, cy..; -1 when not);   *)
(*   gm the groups of the queries <<query, group>>, gs what the statistics     *)
(*   gave for the matches in groups: map[c, i, t, s], gap[c, i, t], mn[c, s],  *)
(*   gn[c] (s: asked to sort), uns the global ones of the unsorted groups and   *)
(*   all those of the groups written one after another: per c four AP, an NDCG;  *)
(*   rep what they gave for the list with every      *)
(*   match k times (the laws of module Replication), pr and rc at the last of   *)
(*   the copies.                                                             *)
(***************************************************************************)
EXTENDS Metrics, TraceLib

VARIABLE l
R == Trace[l]
Judge == IOEnv.JUDGE

Shape(p, r, interp) ==
  /\ \A i \in 1..Len(p) : 0 <= p[i] /\ p[i] <= S
  /\ \A i \in 1..Len(r) : 0 <= r[i] /\ r[i] <= S
  /\ \A i \in 1..Len(r) - 1 : r[i] <= r[i + 1]
  /\ interp => \A i \in 1..Len(p) - 1 : p[i] >= p[i + 1]

CurvesOK(ps, o) ==
  /\ NearSeq(o.pr0, Precision(ps, FALSE), 3)
  /\ NearSeq(o.pr1, Precision(ps, TRUE), 3)
  /\ NearSeq(o.rc0, Recall(ps), 3) /\ NearSeq(o.rc1, Recall(ps), 3)
  /\ Shape(o.pr0, o.rc0, FALSE) /\ Shape(o.pr1, o.rc1, TRUE)
APOK(ps, o) ==
  /\ Near(o.ap00, AP(ps, FALSE, FALSE), 6) /\ Near(o.ap01, AP(ps, FALSE, TRUE), 6)
  /\ Near(o.ap10, AP(ps, TRUE, FALSE), 6) /\ Near(o.ap11, AP(ps, TRUE, TRUE), 6)
  /\ Has(o, "ape00") =>
       /\ Near(o.ape00, APHits(ps, FALSE, FALSE), 6) /\ Near(o.ape01, APHits(ps, FALSE, TRUE), 6)
       /\ Near(o.ape10, APHits(ps, TRUE, FALSE), 6) /\ Near(o.ape11, APHits(ps, TRUE, TRUE), 6)
(* Lists beyond the table of logarithms: all hits give one, no hits nothing.  *)
NDCGLimit(ps, v) ==
  LET t == SumP(ps) IN
  /\ (t.fp = 0 /\ t.fn = 0 /\ t.nr > 0) => Near(v, S, 25)
  /\ (t.nr = 0 \/ t.fp = U * t.nh) => v = 0
NDCGOK(ps, o) == IF SumP(ps).nh > MaxRank \/ TR(ps) > MaxRank THEN NDCGLimit(ps, o.ndcg) ELSE Near(o.ndcg, NDCG(ps), 25)
CurveOK(ps, o) ==
  Has(o, "cx") =>
    /\ NearSeq(o.cx, IF R.n < 2 THEN <<>> ELSE CurveX(R.n), 2)
    /\ NearSeq(o.cy00, CurveOf(ps, R.n, FALSE, FALSE), 20) /\ NearSeq(o.cy01, CurveOf(ps, R.n, FALSE, TRUE), 20)
    /\ NearSeq(o.cy10, CurveOf(ps, R.n, TRUE, FALSE), 20) /\ NearSeq(o.cy11, CurveOf(ps, R.n, TRUE, TRUE), 20)

(* ------------------------------------------------- statistics of groups    *)
GroupOfQ(q) == LET h == {i \in 1..Len(R.gm) : R.gm[i][1] = q} IN IF h = {} THEN q ELSE R.gm[Min(h)][2]
GMs == [i \in 1..Len(R.ms) |-> [R.ms[i] EXCEPT !.q = GroupOfQ(@)]]
B01 == <<FALSE, TRUE>>
\* sorting leaves one order of the points, up to equal scores that are collapsed
Determined(ms, c) == SameMisses(ms) /\ (c \/ TieFree(ms))
Statistics ==
  LET gms == GMs
      G == Groups(gms)
      alldet(c) == \A g \in G : Determined(OfGroup(gms, g), c)
      same(k) == Near(R.gs.uns[k], R.gs.all[k], 2)
  IN CASE Judge = "C06" ->
            /\ \A k \in {1, 2, 3, 4, 6, 7, 8, 9} : same(k)
            /\ \A c, i, t \in 1..2 : Determined(gms, B01[c]) =>
              Near(R.gs.gap[4 * (c - 1) + 2 * (i - 1) + t], GAP(SortDesc(gms), [c |-> B01[c], i |-> B01[i], t |-> B01[t]]), 10)
       [] Judge = "C07" ->
            /\ same(5) /\ same(10)
            /\ \A c \in 1..2 : Determined(gms, B01[c]) => Near(R.gs.gn[c], GNDCG(SortDesc(gms), [c |-> B01[c]]), 25)
       [] Judge = "C08" ->
            /\ R.gs.ng = Cardinality(G)
            /\ \A c, i, t, s \in 1..2 : (s = 1 \/ alldet(B01[c])) =>
                 Near(R.gs.map[8 * (c - 1) + 4 * (i - 1) + 2 * (t - 1) + s],
                      MeanOver(gms, LAMBDA x : AP(PointsOf(IF s = 2 THEN SortDesc(x) ELSE x, B01[c]), B01[i], B01[t])), 10)
            /\ \A c, s \in 1..2 : (s = 1 \/ alldet(B01[c])) =>
                 Near(R.gs.mn[2 * (c - 1) + s], MeanOver(gms, LAMBDA x : NDCG(PointsOf(IF s = 2 THEN SortDesc(x) ELSE x, B01[c]))), 25)
       [] OTHER -> TRUE

(* ------------------------------------------------- every match k times     *)
Times(k, p) == [fp |-> k * p.fp, fn |-> k * p.fn, nh |-> k * p.nh, nr |-> k * p.nr]
RepeatOK ==
  LET o == R.rep
      ps == Points(R.ms)
      cs == Collapse(R.ms)
      big == [i \in 1..Len(cs) |-> Times(o.k, cs[i])]
      t == SumP(ps)
  IN /\ o.len = o.k * Len(R.ms) /\ o.tr = o.k * TR(ps)
     /\ CASE Judge = "C05" -> /\ NearSeq(o.pr0, Precision(ps, FALSE), 3) /\ NearSeq(o.rc0, Recall(ps), 3)
                               /\ NearSeq(o.pr1, Precision(ps, TRUE), 3) /\ NearSeq(o.rc1, Recall(ps), 3)
          [] Judge = "C06" -> /\ Near(o.cap00, AP(cs, FALSE, FALSE), 6) /\ Near(o.cap01, AP(cs, FALSE, TRUE), 6)
                              /\ (t.fp = 0 /\ t.fn = 0 /\ t.nr > 0) => Near(o.ap, S, 6) /\ Near(o.ape, S, 6)
                              /\ Near(o.cap10, AP(cs, TRUE, FALSE), 6) /\ Near(o.cap11, AP(cs, TRUE, TRUE), 6)
          [] Judge = "C07" -> NDCGLimit(ps, o.ndcg) /\ NDCGLimit(ps, o.cndcg)
          [] Judge = "C21" -> o.col = big
          [] OTHER -> TRUE

(* The curves are judged for the points the code itself produced.            *)
OK(ps, o) == CASE Judge = "C05" -> CurvesOK(ps, o)
               [] Judge = "C06" -> APOK(ps, o)
               [] Judge = "C07" -> NDCGOK(ps, o)
               [] Judge = "C16" -> CurveOK(ps, o)
               [] OTHER -> TRUE

CollapseOK ==
  /\ R.pts = Points(R.ms)
  /\ R.col = Collapse(R.ms)
  /\ SumP(R.col) = SumP(R.pts)

Good == IF Has(R, "es") THEN OK(R.es, R.raw)
        ELSE IF Has(R, "rep") /\ ~RepeatOK THEN FALSE
        ELSE IF Judge = "C21" THEN CollapseOK
        ELSE IF Has(R, "gs") /\ ~Statistics THEN FALSE
        ELSE /\ OK(Points(R.ms), R.raw) /\ OK(R.col, R.cv)
             /\ Has(R, "raw2") => OK(Points(R.ms), R.raw2) /\ OK(Collapse(R.ms), R.cv2)

Why == IF Has(R, "rep") /\ ~RepeatOK THEN <<"with every match repeated">>
       ELSE IF Has(R, "gs") /\ ~Statistics THEN <<"statistics of groups">>
       ELSE IF Has(R, "es") THEN <<Precision(R.es, FALSE), Recall(R.es), AP(R.es, FALSE, FALSE), IF SumP(R.es).nh > MaxRank \/ TR(R.es) > MaxRank THEN 0 ELSE NDCG(R.es)>>
       ELSE IF Judge = "C21" THEN <<Collapse(R.ms)>>
       ELSE LET p == Points(R.ms) IN <<Precision(p, FALSE), Recall(p), AP(p, FALSE, FALSE), NDCG(p)>>

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(R, "crash") THEN Reject(l, R.crash)
     ELSE IF Good THEN TRUE ELSE Reject(l, <<"specified", Why>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
