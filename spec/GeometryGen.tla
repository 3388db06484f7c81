---------------------------- MODULE GeometryGen -----------------------------
(***************************************************************************)
(* All pairs of small rectangles: the formulas agree with the sets of unit  *)
(* cells; prints the expected areas and verdicts for replay.                *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets, Json

CONSTANTS N, M, Show        \* corners 0..N, sides 0..M

VARIABLES a, b
Boxes == [x : 0..N, y : 0..N, w : 0..M, h : 0..M]
Init == a \in Boxes /\ b \in [x : {0}, y : {0}, w : {-1}, h : {-1}]
Next == b.w = -1 /\ b' \in Boxes /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>

Cells(r) == (r.x..r.x + r.w - 1) \X (r.y..r.y + r.h - 1)
Big(r) == [d |-> <<100>>, x |-> Nat2Big(r.x), y |-> Nat2Big(r.y), w |-> Nat2Big(r.w), h |-> Nat2Big(r.h)]
A == Big(a)
B == Big(b)
Card(S) == Nat2Big(Cardinality(S))
Laws == b.w >= 0 =>
  /\ BArea(A) = Card(Cells(a))
  /\ BInter(A, B) = Card(Cells(a) \cap Cells(b)) /\ BInter(A, B) = BInter(B, A)
  /\ BUnion(A, B) = Card(Cells(a) \cup Cells(b)) /\ BUnion(A, B) = BUnion(B, A)
  /\ BInter(A, [B EXCEPT !.d = <<101>>]) = <<>>
  /\ Leq(BInter(A, B), BMin(BArea(A), BArea(B))) /\ Leq(BMax(BArea(A), BArea(B)), BUnion(A, B))
Small(x) == IF x = <<>> THEN 0 ELSE x[1]
Rules == << [k |-> "ioh", n |-> 0, d |-> 1], [k |-> "ioh", n |-> 1, d |-> 2], [k |-> "ioh", n |-> 1, d |-> 3], [k |-> "ioh", n |-> 1, d |-> 1],
            [k |-> "iou", n |-> 0, d |-> 1], [k |-> "iou", n |-> 1, d |-> 2], [k |-> "iou", n |-> 1, d |-> 3], [k |-> "iou", n |-> 1, d |-> 1],
            [k |-> "triv", n |-> 1, d |-> 1] >>
Row == [a |-> <<a.x, a.y, a.w, a.h>>, b |-> <<b.x, b.y, b.w, b.h>>,
        e |-> <<Small(BArea(A)), Small(BArea(B)), Small(BInter(A, B)), Small(BUnion(A, B))>>,
        v |-> [i \in 1..Len(Rules) |-> Verdict(Rules[i], TRUE, A, B)]]
Emit == Show /\ b.w >= 0 => PrintT("GEN " \o ToJson(Row))
=============================================================================
