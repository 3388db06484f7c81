---------------------------- MODULE EventSetGen -----------------------------
(***************************************************************************)
(* Enumerates every history of the given depth over a small universe and   *)
(* prints it with the observations the specification requires after each   *)
(* step.  The histories are replayed through the real index.               *)
(***************************************************************************)
EXTENDS EventSetSpec, Json

CONSTANTS U,             \* sequence of events
          Depth

VARIABLE hist
vars == <<S, hist>>

Q == <<97>>  D == <<100>>
Ev(q, d, x, y, w, h) == [q |-> q, d |-> d, x |-> x, y |-> y, w |-> w, h |-> h]
\* ties in overlap area, containment, touching
U1 == << Ev(Q, D, 0, 0, 4, 4), Ev(Q, D, 2, 0, 4, 4), Ev(Q, D, 4, 0, 4, 4) >>
\* same box in other documents and for other queries
U2 == << Ev(Q, D, 1, 1, 2, 3), Ev(Q, <<100, 98>>, 1, 1, 2, 3), Ev(<<97, 98>>, D, 1, 1, 2, 3) >>
\* no area, one unit, everything
U3 == << Ev(Q, D, 1, 1, 0, 3), Ev(Q, D, 1, 1, 1, 1), Ev(Q, D, 0, 0, 9, 9) >>

Idx(e) == CHOOSE i \in 1..Len(U) : U[i] = e
Obs(T) == [size |-> Cardinality(T),
           look |-> [p \in 1..Len(U) |->
                      LET r == Overlapping(T, U[p]) IN [i \in 1..Len(r) |-> Idx(r[i])]]]

GInit == Init /\ hist = <<>>
Step(op, i, T) == hist' = Append(hist, [op |-> op, e |-> i, obs |-> Obs(T)])
GNext ==
  /\ Len(hist) < Depth
  /\ \/ \E i \in 1..Len(U) : Add(U[i]) /\ Step("i", i, S')
     \/ \E i \in 1..Len(U) : Drop(U[i]) /\ Step("r", i, S')
     \/ Clear /\ Step("c", 0, S')
GSpec == GInit /\ [][GNext]_vars

Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
