--------------------------- MODULE GeometryTrace ----------------------------
(***************************************************************************)
(* Checks areas and verdicts computed by the real code.  Record:            *)
(*  [q, a, b, area, inter, union, rules |-> << [k, n, d, yes] >>, soft]      *)
(* q: are the queries equal; a, b: [d, x, y, w, h] with decimal digits      *)
(* (shifted to be natural); observed numbers as decimal digits.             *)
(***************************************************************************)
EXTENDS TraceLib, Geometry

VARIABLE l
T == Trace[l]
IsNum(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : s[i] \in 48..57
Box(r) == [d |-> r.d, x |-> FromDigits(r.x), y |-> FromDigits(r.y), w |-> FromDigits(r.w), h |-> FromDigits(r.h)]
Is(obs, v) == IsNum(obs) /\ Trim(FromDigits(obs)) = v

Problems ==
  LET a == Box(T.a)  b == Box(T.b)
      p(ok, t) == IF ok THEN {} ELSE {ToString(t)} IN
  p(Is(T.area[1], BArea(a)) /\ Is(T.area[2], BArea(b)), "area")
    \cup p(\A i \in 1..Len(T.inter) : Is(T.inter[i], BInter(a, b)), "intersection")
    \cup p(\A i \in 1..Len(T.union) : Is(T.union[i], BUnion(a, b)), "union")
    \cup UNION {LET r == T.rules[i]  v == Verdict(r, T.q, a, b) IN
                p(r.yes \in {"yes", "no"} /\ v \in {r.yes, "either"}, <<r.k, r.n, r.d, "is", r.yes, "not", v>>) : i \in 1..Len(T.rules)}
    \cup p(IF ~T.q THEN T.soft[1].one /\ T.soft[2].one
           ELSE FractionOk(T.soft[1], BInter(a, b), BArea(b)) /\ FractionOk(T.soft[2], BInter(a, b), BArea(a)), "soft scorer")

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE LET P == Problems IN IF P = {} THEN TRUE ELSE Reject(l, <<P, T>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
