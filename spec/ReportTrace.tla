----------------------------- MODULE ReportTrace ----------------------------
(***************************************************************************)
(* Checks what complete runs of the tools report against Metrics, for the   *)
(* matches the same run dumped.  Record:                                    *)
(*   ms      the dumped matches [q, s, hyp, ref, fp, fn], q a string        *)
(*   groups  content of the query-groups file (<<>> when none was given)    *)
(*   o       [c, i, t]: collapse, interpolate, trapezoid                    *)
(*   v       the four reported values, fixed point                          *)
(*   n, gx, gy, mx, my   requested curve points and the curve files         *)
(*   refq    the queries of the reference file (with groups)                *)
(*   at      with very many points: the numbers of those in gx.., all of which *)
(*           are len long (optional)                                        *)
(* JUDGE names the property that is decided.                                *)
(***************************************************************************)
EXTENDS Metrics, TextFiles, TraceLib

VARIABLE l
R == Trace[l]
Judge == IOEnv.JUDGE

GM == GroupMap(R.groups)
Grouped == [i \in 1..Len(R.ms) |-> [R.ms[i] EXCEPT !.q = GroupOf(GM, @)]]

(* Every query listed on a line belongs to a group: its references are there. *)
Listed == \A i \in 1..Len(R.refq) :
            R.refq[i] \in DOMAIN GM => \E j \in 1..Len(R.ms) : R.ms[j].ref /\ R.ms[j].q = R.refq[i]

TolAP == 14
TolNDCG == 30
TolCurve == 25

Unit01(x) == 0 <= x /\ x <= S

CurveAt(ms) == LET ps == PointsOf(ms, R.o.c)
                   pr == Precision(ps, R.o.i)
                   rc == RecallFracs(ps)
               IN [i \in 1..Len(R.at) |-> SampleAt(rc, pr, R.at[i] - 1, R.n - 1, R.o.t)]
MeanCurveAt == LET G == SetToSeq(Groups(Grouped))
                   C == [g \in 1..Len(G) |-> CurveAt(OfGroup(Grouped, G[g]))]
               IN [k \in 1..Len(R.at) |-> FoldLeft(LAMBDA a, g : a + C[g][k] \div Len(G), 0, [g \in 1..Len(G) |-> g])]

Want ==
  CASE Judge = "C06" -> <<GAP(R.ms, R.o)>>
    [] Judge = "C07" -> <<GNDCG(R.ms, R.o)>>
    [] Judge = "C08" -> <<MAP(Grouped, R.o), MNDCG(Grouped, R.o)>>
    [] Judge = "C20" -> <<GAP(R.ms, R.o), MAP(Grouped, R.o), GNDCG(R.ms, R.o), MNDCG(Grouped, R.o)>>
    [] Judge = "C16" -> IF Has(R, "at") THEN <<CurveAt(R.ms), MeanCurveAt>> ELSE <<Curve(R.ms, R.n, R.o), MeanCurve(Grouped, R.n, R.o)>>

Good ==
  LET w == Want IN
  CASE Judge = "C06" -> Near(R.v[1], w[1], TolAP) /\ Unit01(R.v[1])
    [] Judge = "C07" -> Near(R.v[3], w[1], TolNDCG) /\ Unit01(R.v[3])
    [] Judge = "C08" -> /\ Near(R.v[2], w[1], TolAP) /\ Near(R.v[4], w[2], TolNDCG)
                        /\ Has(R, "refq") => Listed
    [] Judge = "C20" -> /\ Near(R.v[1], w[1], TolAP) /\ Near(R.v[2], w[2], TolAP)
                        /\ Near(R.v[3], w[3], TolNDCG) /\ Near(R.v[4], w[4], TolNDCG)
    [] Judge = "C16" ->
         LET x == IF R.n < 2 THEN <<>> ELSE IF Has(R, "at") THEN [i \in 1..Len(R.at) |-> FixDiv(R.at[i] - 1, R.n - 1)] ELSE CurveX(R.n) IN
         /\ Has(R, "at") => \A i \in 1..4 : R.len[i] = R.n
         /\ NearSeq(R.gx, x, 10) /\ NearSeq(R.mx, x, 10)
         /\ NearSeq(R.gy, w[1], TolCurve) /\ NearSeq(R.my, w[2], TolCurve)
         /\ \A i \in 1..Len(R.gy) : Unit01(R.gy[i]) /\ Unit01(R.my[i])

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(R, "crash") THEN Reject(l, R.crash)
     ELSE IF Good THEN TRUE ELSE Reject(l, <<"specified", Want>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
