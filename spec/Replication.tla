---------------------------- MODULE Replication -----------------------------
(***************************************************************************)
(* A law of the metrics: k copies of a world, each with groups of its own,  *)
(* have the metrics of the world (except the global NDCG) when equal scores *)
(* are collapsed.  It lets small worlds decide runs over very many labels.  *)
(* Also: with every match k times in a row the collapsed points are k times     *)
(* the points, the curves at the last of the copies are the curves, and so is    *)
(* the average precision of the collapsed list.                             *)
(***************************************************************************)
EXTENDS Metrics

CONSTANTS N, Copies
VARIABLES ms
Kinds == {[hyp |-> TRUE, ref |-> TRUE, fp |-> 0, fn |-> 0], [hyp |-> TRUE, ref |-> FALSE, fp |-> U, fn |-> 0],
          [hyp |-> FALSE, ref |-> TRUE, fp |-> 0, fn |-> U],
          [hyp |-> TRUE, ref |-> TRUE, fp |-> 16, fn |-> 16]}
M(k, q, s) == [q |-> q, s |-> IF k.hyp THEN s ELSE 0, hyp |-> k.hyp, ref |-> k.ref, fp |-> k.fp, fn |-> k.fn]
Ranked(x) == \A i \in 1..Len(x) - 1 : (x[i].hyp /\ ~x[i + 1].hyp)
                                          \/ (x[i].hyp = x[i + 1].hyp /\ x[i].s >= x[i + 1].s)
Init == ms = <<>>
Next == Len(ms) < N /\ \E k \in Kinds, q \in {1, 2}, s \in {1, 2} :
          /\ ms' = Append(ms, M(k, q, s))
          /\ Ranked(ms')
Spec == Init /\ [][Next]_ms
\* the copies interleaved, which keeps the ranking by score
Copied(c) == [i \in 1..c * Len(ms) |-> LET m == ms[1 + (i - 1) \div c] IN [m EXCEPT !.q = @ + (10 * (i % c))]]
Opts == {[c |-> TRUE, i |-> a, t |-> b] : a, b \in BOOLEAN}
Law == \A c \in Copies, o \in Opts : LET x == Copied(c) IN
  /\ Near(GAP(x, o), GAP(ms, o), 2)
  /\ Near(MAP(x, o), MAP(ms, o), 2)
  /\ Near(MNDCG(x, o), MNDCG(ms, o), 2)
  /\ \A n \in {2, 4} : /\ NearSeq(Curve(x, n, o), Curve(ms, n, o), 2)
                        /\ NearSeq(MeanCurve(x, n, o), MeanCurve(ms, n, o), 2 * Len(ms) * c)

Rep(k) == [i \in 1..k * Len(ms) |-> ms[1 + (i - 1) \div k]]
Scale(k, p) == [fp |-> k * p.fp, fn |-> k * p.fn, nh |-> k * p.nh, nr |-> k * p.nr]
Ends(k, x) == [i \in 1..Len(ms) |-> x[i * k]]
RepeatLaw == \A k \in Copies :
  /\ Collapse(Rep(k)) = [i \in 1..Len(Collapse(ms)) |-> Scale(k, Collapse(ms)[i])]
  /\ \A interp \in BOOLEAN : NearSeq(Ends(k, Precision(Points(Rep(k)), interp)), Precision(Points(ms), interp), 1)
  /\ NearSeq(Ends(k, Recall(Points(Rep(k)))), Recall(Points(ms)), 1)
  /\ \A a, b \in BOOLEAN : Near(AP(Collapse(Rep(k)), a, b), AP(Collapse(ms), a, b), 2)
\* as many hits as references and nothing else: one; no hit: nothing
LimitLaw == LET t == SumP(Points(ms)) IN
  /\ (t.fp = 0 /\ t.fn = 0 /\ t.nr > 0) => Near(NDCG(Points(ms)), S, 25)
  /\ (t.nr = 0 \/ t.fp = U * t.nh) => NDCG(Points(ms)) = 0
HitsLaw == \A c, a, b \in BOOLEAN : Near(APHits(PointsOf(ms, c), a, b), AP(PointsOf(ms, c), a, b), 2)
=============================================================================
