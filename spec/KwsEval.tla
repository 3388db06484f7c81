------------------------------ MODULE KwsEval -------------------------------
(***************************************************************************)
(* The evaluation pipeline of the tools (tools/GenericKwsEvalTool.h) from   *)
(* the events that were read to the list of matches:                        *)
(*    filter by query  ->  rank  ->  match greedily  ->  close misses.       *)
(* It extends the machine of Matching; references and hypotheses are        *)
(* numbers of values whose attributes are given by the operators below.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Cand(_, _), RefLess(_, _),
          RefQuery(_), HypQuery(_),
          HypGreater(_, _)          \* score first, then the event's own order

VARIABLES refs, hyps, pos, claimed, result, repeated, phase

M == INSTANCE Matching
pvars == <<refs, hyps, pos, claimed, result, repeated, phase>>

(* Before matching, refs is the set of references read and hyps the         *)
(* hypotheses in file order.                                                *)
ReadInit(R, H) ==
  /\ refs = R /\ hyps = H /\ pos = 0
  /\ claimed = {} /\ result = <<>> /\ repeated = <<>> /\ phase = "filter"
ReadNew(R, H) ==
  /\ refs' = R /\ hyps' = H /\ pos' = 0
  /\ claimed' = {} /\ result' = <<>> /\ repeated' = <<>> /\ phase' = "filter"

(* The filter is off when no query was listed.                              *)
Filter(on, Q) ==
  /\ phase = "filter" /\ phase' = "rank"
  /\ refs' = IF on THEN {r \in refs : RefQuery(r) \in Q} ELSE refs
  /\ hyps' = IF on THEN SelectSeq(hyps, LAMBDA h : HypQuery(h) \in Q) ELSE hyps
  /\ UNCHANGED <<pos, claimed, result, repeated>>

(* Ranking.  Equal values are interchangeable, so that the order is total.   *)
Order == INSTANCE Ranking
Rank(sort) ==
  /\ phase = "rank" /\ phase' = "match"
  /\ hyps' = Order!Ranking(hyps, sort)
  /\ UNCHANGED <<refs, pos, claimed, result, repeated>>
=============================================================================
