------------------------------ MODULE Ranking -------------------------------
(***************************************************************************)
(* The ranking of hypotheses: by score with the event order as tie breaker, *)
(* or the file order when sorting is off or the criterion is unknown.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANT HypGreater(_, _)

Ranking(H, sort) ==
  CASE sort = "desc" -> SortSeq(H, LAMBDA a, b : HypGreater(a, b))
    [] sort = "asc"  -> SortSeq(H, LAMBDA a, b : HypGreater(b, a))
    [] OTHER         -> H
=============================================================================
