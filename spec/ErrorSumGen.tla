---------------------------- MODULE ErrorSumGen -----------------------------
(* Every history of a bounded length, with all the values at its end.        *)
EXTENDS ErrorSum, Json
CONSTANT Depth
VARIABLE hist
GInit == SInit /\ hist = <<>>
GNext == Len(hist) < Depth /\ SNext /\ hist' = Append(hist, last')
GSpec == GInit /\ [][GNext]_<<P, C, last, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([ops |-> hist, cells |-> Cells(P, C)]))
=============================================================================
