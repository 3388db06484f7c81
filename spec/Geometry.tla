------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Areas of half-open rectangles, of any size (property C03).  A rectangle  *)
(* is [d, x, y, w, h]: document and big naturals.  What a rectangle means   *)
(* is its set of unit cells; GeometryGen checks the formulas against it.    *)
(***************************************************************************)
EXTENDS BigNat

BSide(p, n, q, m) == LET lo == BMax(p, q) hi == BMin(Add(p, n), Add(q, m))
                     IN IF Leq(hi, lo) THEN <<>> ELSE Sub(hi, lo)
BArea(a) == Mul(a.w, a.h)
BInter(a, b) == IF a.d # b.d THEN <<>> ELSE Mul(BSide(a.x, a.w, b.x, b.w), BSide(a.y, a.h, b.y, b.h))
BUnion(a, b) == Sub(Add(BArea(a), BArea(b)), BInter(a, b))

(* The acceptance rules.  Thresholds are n/d.  The code divides in single     *)
(* precision, so for huge areas a pair next to the threshold may go either   *)
(* way: Verdict is "yes", "no" or "either".                                  *)
Large == Nat2Big(100000)
Reach(i, a, n, d) ==     \* does i / a reach n / d
  LET l == Mul(i, Nat2Big(d))  r == Mul(a, Nat2Big(n)) IN
  IF Leq(a, Large) THEN (IF Leq(r, l) THEN "yes" ELSE "no")
  ELSE LET s == Nat2Big(1048576) up == Nat2Big(1048577) IN
       IF Leq(Mul(r, up), Mul(l, s)) THEN "yes"
       ELSE IF Leq(Mul(l, up), Mul(r, s)) /\ ~(l = r) THEN "no" ELSE "either"
Verdict(rule, sameq, r, h) ==
  CASE rule.k = "triv" -> IF sameq /\ r = h THEN "yes" ELSE "no"
    [] ~sameq \/ BArea(h) = <<>> -> "no"
    [] rule.k = "ioh" -> Reach(BInter(r, h), BArea(h), rule.n, rule.d)
    [] rule.k = "iou" -> Reach(BInter(r, h), BUnion(r, h), rule.n, rule.d)

(* The soft scorer: k is the reported fraction in units of 10^-7, zero and    *)
(* one tell whether it is exactly 0 or 1.                                    *)
Mill == Nat2Big(10000000)
FractionOk(o, i, a) ==   \* uncovered fraction 1 - i/a of area a (1 if there is none)
  IF a = <<>> THEN o.one
  ELSE LET kk == Mul(Nat2Big(o.k), a)  exact == Mul(Sub(a, i), Mill)  tol == MulSmall(a, 5) IN
       /\ Leq(kk, Add(exact, tol)) /\ Leq(exact, Add(kk, tol))
       /\ Leq(a, Large) => (o.zero <=> i = a) /\ (o.one <=> i = <<>>)
=============================================================================
