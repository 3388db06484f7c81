---------------------------- MODULE MapperTrace -----------------------------
(***************************************************************************)
(* Checks recorded histories of the real mappers.  Record: [cap, pre, ops]: *)
(* pre labels were looked up before with the first mapping (the numbers     *)
(* 0 .. pre-1 are taken), ops: what is done with the mappers (MapperHandles) *)
(*   [op |-> "copy" ..., a |-> mappers]                                      *)
(* and lookups                                                               *)
(*   [op |-> "l" / "e" / "x", k, args |-> labels, ok, nums, score |-> <<in, out>>]. *)
(* All states of the mappings that explain what was seen are kept (which    *)
(* label of an event comes first is open).                                  *)
(***************************************************************************)
EXTENDS TraceLib, FiniteSets
M == INSTANCE MapperHandles WITH Labels <- {}, Cap <- 0, known <- <<>>, last <- <<>>, hs <- <<>>, maps <- <<>>,
       MaxLab <- 0, MaxEv <- 0, MaxSc <- 0, MaxMaps <- 0

VARIABLES l, i, h, Ks      \* Ks: possible states of the mappings
T == Trace[l]
Op == T.ops[i]
IsLook == Op.op \in {"l", "e", "x"}
m == M!MappingOf(h, Op.op, Op.k)
Pre(j) == IF j = 1 THEN T.pre ELSE 0
Shift(nums) == [k \in 1..Len(nums) |-> nums[k] - Pre(m)]
Outcomes(k) == IF Op.op = "l" THEN M!LabelOutcomes(k[m], Op.args[1], T.cap - Pre(m))
               ELSE M!EventOutcomes(k[m], Op.args[1], Op.args[2], T.cap - Pre(m))
After == UNION {{[k EXCEPT ![m] = o.known] : o \in {p \in Outcomes(k) : p.ok = Op.ok /\ p.nums = Shift(Op.nums)}} : k \in Ks}
ScoreKept == Op.ok => Op.score[1] = Op.score[2]
Start == h' = M!NoHandles /\ i' = 1 /\ Ks' = {<<<<>>>>}
TraceInit == l = 1 /\ i = 1 /\ h = M!NoHandles /\ Ks = {<<<<>>>>} /\ Consumed(0)
NextRecord == l' = l + 1 /\ Start /\ Consumed(l)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash) /\ NextRecord
     ELSE IF i > Len(T.ops) THEN NextRecord
     ELSE IF ~IsLook THEN
       /\ Assert(M!May(h, Op.op, Op.a), <<"history outside the specification", l, i, Op>>)
       /\ h' = M!Made(h, Len(CHOOSE k \in Ks : TRUE), Op.op, Op.a) /\ i' = i + 1 /\ l' = l
       /\ Ks' = IF M!Brings(Op.op) THEN {Append(k, <<>>) : k \in Ks} ELSE Ks
     ELSE IF After = {} \/ ~ScoreKept THEN Reject(l, <<"operation", i, Op, "states of the mappings", Cardinality(Ks)>>) /\ NextRecord
     ELSE Ks' = After /\ i' = i + 1 /\ l' = l /\ h' = h
TraceSpec == TraceInit /\ [][TraceNext]_<<l, i, h, Ks>>
=============================================================================
