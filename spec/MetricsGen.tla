----------------------------- MODULE MetricsGen -----------------------------
(***************************************************************************)
(* Every list of matches of bounded length: builds lists entry by entry     *)
(* (hits and false positives with non-increasing scores, then misses),      *)
(* checks the laws of the metrics on each and prints the values for replay. *)
(***************************************************************************)
EXTENDS Metrics, Json

CONSTANTS MaxLen,      \* matches
          NQ,          \* queries
          Soft,        \* also soft hits
          Show

VARIABLE ms
Opts == {[c |-> c, i |-> i, t |-> t] : c \in BOOLEAN, i \in BOOLEAN, t \in BOOLEAN}

M(q, s, h, r, fp, fn) == [q |-> q, s |-> s, hyp |-> h, ref |-> r, fp |-> fp, fn |-> fn]
Low == IF ms = <<>> THEN 3 ELSE ms[Len(ms)].s
CanHyp == IF ms = <<>> THEN TRUE ELSE ms[Len(ms)].hyp

Init == ms = <<>>
Next ==
  /\ Len(ms) < MaxLen
  /\ \E q \in 1..NQ :
       \/ CanHyp /\ \E s \in {Low, Low - 1} :
            \/ ms' = Append(ms, M(q, s, TRUE, TRUE, 0, 0))
            \/ ms' = Append(ms, M(q, s, TRUE, FALSE, U, 0))
            \/ Soft /\ ms' = Append(ms, M(q, s, TRUE, TRUE, U \div 4, U \div 2))
       \/ ms' = Append(ms, M(q, 0, FALSE, TRUE, 0, U))
Spec == Init /\ [][Next]_ms

Unit(x) == 0 <= x /\ x <= S
Mono(s) == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
Anti(s) == \A i \in 1..Len(s) - 1 : s[i] >= s[i + 1]

CurveLaws == \A c, i \in BOOLEAN :
  LET ps == PointsOf(ms, c)
      pr == Precision(ps, i)
      rc == Recall(ps)
  IN /\ Len(pr) = Len(ps) /\ Len(rc) = Len(ps)
     /\ \A k \in 1..Len(ps) : Unit(pr[k]) /\ Unit(rc[k])
     /\ Mono(rc)
     /\ i => Anti(pr)
     /\ Len(ps) > 0 /\ (\A k \in 1..Len(ms) : ms[k].fn = 0) => rc[Len(rc)] = S

CollapseLaws ==
  LET p == Points(ms)
      c == Collapse(ms)
  IN /\ SumP(p) = SumP(c)
     /\ Len(c) = Cardinality({<<ms[k].hyp, ms[k].s>> : k \in 1..Len(ms)})   \* scores never return
     /\ \A k \in 1..Len(c) : c[k].nh + c[k].nr > 0

AnyHit == \E k \in 1..Len(ms) : ms[k].hyp /\ ms[k].ref
Perfect == /\ \A k \in 1..Len(ms) : ms[k].hyp
           /\ \A k \in 1..Len(ms) : ms[k].ref => ms[k].fp = 0 /\ ms[k].fn = 0
           /\ \A k, j \in 1..Len(ms) : ~ms[k].ref /\ ms[j].ref => j < k
           /\ \E k \in 1..Len(ms) : ms[k].ref
PerfectC == Perfect /\ \A k, j \in 1..Len(ms) : ~ms[k].ref /\ ms[j].ref => ms[k].s # ms[j].s
APLaws == \A o \in Opts :
  LET v == GAP(ms, o) IN
  /\ Unit(v)
  /\ (IF o.c THEN PerfectC ELSE Perfect) => v = S
  /\ ~AnyHit /\ (\E k \in 1..Len(ms) : ms[k].ref) => v = 0
  /\ Unit(MAP(ms, o))
  /\ Cardinality(Groups(ms)) = 1 => MAP(ms, o) = v
NDCGLaws == \A o \in Opts :
  LET v == GNDCG(ms, o) IN
  /\ 0 <= v /\ v <= S + 10
  /\ (IF o.c THEN PerfectC ELSE Perfect) => v = S
  /\ ~AnyHit => v = 0
  /\ (\A k \in 1..Len(ms) : ~ms[k].ref) => v = 0
  /\ Cardinality(Groups(ms)) = 1 => MNDCG(ms, o) = v

(* With collapsing, the order among equal scores does not matter.            *)
Swapped(k) == [ms EXCEPT ![k] = ms[k + 1], ![k + 1] = ms[k]]
TieLaw == \A k \in 1..Len(ms) - 1 : SameScore(ms[k], ms[k + 1]) =>
  /\ Collapse(Swapped(k)) = Collapse(ms)
  /\ \A o \in Opts : o.c => MAP(Swapped(k), o) = MAP(ms, o)

SampleLaws == \A o \in Opts :
  LET c == Curve(ms, 4, o) IN
  /\ \A k \in 1..4 : Unit(c[k])
  /\ o.i => \A k \in 1..3 : c[k] + 3 >= c[k + 1]      \* up to rounding
  /\ \A k \in 1..4 : Unit(MeanCurve(ms, 4, o)[k])

Values == [ms |-> ms,
           v |-> [o \in {1, 2, 3, 4, 5, 6, 7, 8} |->
                   LET b == [c |-> o > 4, i |-> ((o - 1) \div 2) % 2 = 1, t |-> (o - 1) % 2 = 1]
                   IN <<GAP(ms, b), MAP(ms, b), GNDCG(ms, b), MNDCG(ms, b)>>]]
Emit == Show => PrintT("GEN " \o ToJson(Values))
=============================================================================
