------------------------------- MODULE Orders -------------------------------
(***************************************************************************)
(* The order of boxes, document boxes, events and scored events (C12).  A   *)
(* value is the sequence of its attributes in order of significance; labels *)
(* are byte strings compared byte by byte, numbers are compared as numbers. *)
(***************************************************************************)
EXTENDS Events

\* attributes: <<"t", bytes>> or <<"n", integer>>
AttrLess(a, b) == IF a[1] = "t" THEN LexLess(a[2], b[2]) ELSE a[2] < b[2]
Before(a, b) ==
  LET D == {i \in 1..Len(a) : a[i] # b[i]}
  IN D # {} /\ LET i == Min(D) IN AttrLess(a[i], b[i])

(* the six operators: <, >, <=, >=, =, #                                     *)
Six(a, b) == << Before(a, b), Before(b, a), ~Before(b, a), ~Before(a, b), a = b, a # b >>
=============================================================================
