------------------------------ MODULE Scorers -------------------------------
(***************************************************************************)
(* Acceptance rules (scorer/*.h) over exact integer areas.                 *)
(***************************************************************************)
EXTENDS Events

(* Intersection over hypothesis area reaches n/d.                          *)
AcceptIoH(r, h, n, d) == r.q = h.q /\ Area(h) > 0 /\ Inter(r, h) * d >= n * Area(h)
(* Intersection over union reaches n/d.                                    *)
AcceptIoU(r, h, n, d) == r.q = h.q /\ Area(h) > 0 /\ Inter(r, h) * d >= n * Union(r, h)
(* Exactly the same query and location.                                    *)
AcceptTrivial(r, h) ==
  r.q = h.q /\ r.d = h.d /\ r.x = h.x /\ r.y = h.y /\ r.w = h.w /\ r.h = h.h
(* The soft scorer accepts whatever covers a part of the hypothesis.        *)
AcceptSoft(r, h) == r.q = h.q /\ Area(h) > 0 /\ Inter(r, h) > 0

Accept(rule, r, h) ==
  CASE rule.k = "ioh"  -> AcceptIoH(r, h, rule.n, rule.d)
    [] rule.k = "iou"  -> AcceptIoU(r, h, rule.n, rule.d)
    [] rule.k = "soft" -> AcceptSoft(r, h)
    [] rule.k = "triv" -> AcceptTrivial(r, h)

(* False positive and false negative fraction of an accepted pair, in units *)
(* of 1/U (exact for the areas used: U must be a multiple of them).          *)
Errors(rule, r, h, U) ==
  IF rule.k = "soft"
  THEN << U - Inter(r, h) * (U \div Area(h)), U - Inter(r, h) * (U \div Area(r)) >>
  ELSE <<0, 0>>
=============================================================================
