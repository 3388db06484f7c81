--------------------------- MODULE MatchValueGen ----------------------------
(* Every history of operations of a bounded length, with what must be seen   *)
(* at its end.                                                              *)
EXTENDS MatchValue, Json
CONSTANT Depth
VARIABLE hist
GInit == VInit /\ hist = <<>>
GNext == Len(hist) < Depth /\ VNext /\ hist' = Append(hist, last')
GSpec == GInit /\ [][GNext]_<<S, V, last, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([ops |-> hist, slots |-> S, vec |-> V]))
=============================================================================
