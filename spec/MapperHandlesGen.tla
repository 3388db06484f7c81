-------------------------- MODULE MapperHandlesGen --------------------------
(* Histories over several mappers, event mappers and scored mappers with     *)
(* determined outcomes: HNext, recorded.                                     *)
EXTENDS MapperHandles, Json
CONSTANT Depth
VARIABLE hist
GInit == HInit /\ hist = <<>>
GMake(op, a) == Make(op, a) /\ hist' = Append(hist, [op |-> op, k |-> 0, args |-> <<>>, a |-> a, ok |-> TRUE, nums |-> <<>>])
GLook(op, k, asked, outs) ==
  /\ Cardinality(outs) = 1
  /\ LookUp(op, k, asked, outs)
  /\ hist' = Append(hist, [op |-> op, k |-> k, args |-> asked, a |-> <<>>, ok |-> last'.ok, nums |-> last'.nums])
GNext == Len(hist) < Depth /\ (Maker(GMake) \/ Looker(GLook))
GSpec == GInit /\ [][GNext]_<<hvars, hist>>
\* histories that end with a lookup
Emit == (Len(hist) = Depth /\ last.op \in {"l", "e", "x"}) => PrintT("GEN " \o ToJson(hist))
=============================================================================
