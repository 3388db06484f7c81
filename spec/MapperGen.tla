----------------------------- MODULE MapperGen ------------------------------
(* Every history of lookups of bounded length with determined outcomes.      *)
EXTENDS MapperSpec, Json
CONSTANT Depth
VARIABLE hist
GInit == MInit /\ hist = <<>>
Step(op, args, outs) ==
  /\ Cardinality(outs) = 1
  /\ LET o == CHOOSE o \in outs : TRUE IN
     /\ known' = o.known /\ last' = [ok |-> o.ok, nums |-> o.nums, asked |-> args]
     /\ hist' = Append(hist, [op |-> op, args |-> args, ok |-> o.ok, nums |-> o.nums])
GNext == /\ Len(hist) < Depth
         /\ \/ \E x \in Labels : Step("l", <<x>>, LabelOutcomes(known, x, Cap))
            \/ \E q, d \in Labels : Step("e", <<q, d>>, EventOutcomes(known, q, d, Cap))
GSpec == GInit /\ [][GNext]_<<known, last, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
