------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Boxes, events and their total order, as plain values.                   *)
(*                                                                         *)
(* A string is the sequence of its byte values.  A box event is the record *)
(*   [q |-> string, d |-> string, x, y, w, h |-> integers]                 *)
(* and a label event is [q |-> string, l |-> string] (or numbers).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

(* Lexicographic order of integer sequences (std::string compares bytes as *)
(* unsigned values, a proper prefix comes first).                          *)
LexLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == Min(D) IN a[i] < b[i]

(* One sequence whose lexicographic order is the order of the events:      *)
(* query, then document, then x, y, width, height.                         *)
Key(e) == e.q \o <<-1>> \o e.d \o <<-1>> \o <<e.x, e.y, e.w, e.h>>

EvLess(a, b) == LexLess(Key(a), Key(b))

(* ------------------------------------------------ half-open rectangles *)
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b

(* Side of the intersection of [p, p+n) and [q, q+m).                      *)
Side(p, n, q, m) == Mx(0, Mn(p + n, q + m) - Mx(p, q))

Area(e) == e.w * e.h
Inter(a, b) ==
  IF a.d # b.d THEN 0
  ELSE Side(a.x, a.w, b.x, b.w) * Side(a.y, a.h, b.y, b.h)
Union(a, b) == Area(a) + Area(b) - Inter(a, b)

(* Events of the finite set S that overlap the probe p, largest overlap     *)
(* first, the greater event first among equal overlaps.                     *)
Overlapping(S, p) ==
  LET C == {e \in S : e.q = p.q /\ Inter(e, p) > 0}
      T == {<<Inter(e, p), e>> : e \in C}
      before(s, t) == \/ s[1] > t[1]
                      \/ s[1] = t[1] /\ EvLess(t[2], s[2])
  IN [i \in 1..Cardinality(T) |-> SortSeq(SetToSeq(T), before)[i][2]]

(* Set of the elements of a sequence.                                       *)
Elems(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
