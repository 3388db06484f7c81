-------------------------- MODULE EventSetBigTrace --------------------------
(***************************************************************************)
(* EventSetTrace for coordinates and areas of any size: the same set of     *)
(* events, looked up with the geometry of module Geometry.  Record:         *)
(* [ops |-> << [op, e / es, size, res], ... >>], events [q, d, x, y, w, h]  *)
(* with decimal digits as coordinates.                                      *)
(***************************************************************************)
EXTENDS TraceLib, Geometry, FiniteSets

VARIABLES St, l, i
tvars == <<St, l, i>>
ES == INSTANCE EventSetSpec WITH S <- St

R == Trace[l]
Op == R.ops[i]
Val(e) == [q |-> e.q, d |-> e.d, x |-> FromDigits(e.x), y |-> FromDigits(e.y), w |-> FromDigits(e.w), h |-> FromDigits(e.h)]
Vals(es) == [k \in 1..Len(es) |-> Val(es[k])]

BytesCmp(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {k \in 1..n : a[k] # b[k]}
  IN IF D # {} THEN (LET k == CHOOSE k \in D : \A j \in D : k <= j IN IF a[k] < b[k] THEN -1 ELSE 1)
     ELSE IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1
First(s) == LET D == {k \in 1..Len(s) : s[k] # 0} IN IF D = {} THEN 0 ELSE s[CHOOSE k \in D : \A j \in D : k <= j]
EvCmp(a, b) == First(<<BytesCmp(a.q, b.q), BytesCmp(a.d, b.d), Cmp(a.x, b.x), Cmp(a.y, b.y), Cmp(a.w, b.w), Cmp(a.h, b.h)>>)

Lookup(T, p) ==
  LET C == {<<BInter(e, p), e>> : e \in {e \in T : e.q = p.q}}
      P == {c \in C : c[1] # <<>>}
      before(s, t) == \/ Cmp(s[1], t[1]) = 1
                      \/ s[1] = t[1] /\ EvCmp(s[2], t[2]) = 1
      o == SortSeq(SetToSeq(P), before)
  IN [k \in 1..Len(o) |-> o[k][2]]

TraceInit == ES!Init /\ l = 1 /\ i = 1 /\ Consumed(0)
Effect ==
  CASE Op.op = "i" -> ES!Add(Val(Op.e))
    [] Op.op = "r" -> ES!Drop(Val(Op.e))
    [] Op.op = "c" -> ES!Clear
    [] Op.op = "n" -> ES!Fresh
    [] Op.op = "R" -> ES!Build(Vals(Op.es))
    [] Op.op = "q" -> UNCHANGED St
Agrees ==
  /\ Op.size = Cardinality(St')
  /\ Op.op = "q" => Vals(Op.res) = Lookup(St', Val(Op.e))
NextRecord == l' = l + 1 /\ i' = 1 /\ St' = {} /\ Consumed(l)
Step ==
  IF i > Len(R.ops) THEN NextRecord
  ELSE Effect /\ Agrees /\ i' = i + 1 /\ l' = l
Mismatch == /\ i <= Len(R.ops)
            /\ ~ENABLED Step
            /\ Reject(l, <<i, Op, "stored", St>>)
            /\ NextRecord
Crash == Has(R, "crash") /\ Reject(l, R.crash) /\ NextRecord
TraceNext == l <= Len(Trace) /\ (IF Has(R, "crash") THEN Crash ELSE Step \/ Mismatch)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
