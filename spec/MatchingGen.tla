---------------------------- MODULE MatchingGen -----------------------------
(***************************************************************************)
(* Every matching problem with at most NR references and NH hypotheses,     *)
(* each hypothesis having an arbitrary sequence of acceptable references.   *)
(* Checks the laws of Matching and, when asked to, prints the outcomes for  *)
(* replay against the real matcher.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NR, NH, Show
VARIABLES refs, hyps, pos, claimed, result, repeated, phase

CandMC(R, h) == SelectSeq(h, LAMBDA r : r \in R)
RefLessMC(a, b) == a < b

M == INSTANCE Matching WITH Cand <- CandMC, RefLess <- RefLessMC

Perms(T) == {s \in [1..Cardinality(T) -> T] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Prefs(n) == UNION {Perms(T) : T \in SUBSET (1..n)}

GInit == \E n \in 0..NR : \E k \in 0..NH :
           \E H \in [1..k -> Prefs(n)] : M!Start(1..n, H)
GNext == M!MNext
GSpec == GInit /\ [][GNext]_M!mvars

Laws == M!MatchingLaws
Emit == (Show /\ phase = "done") =>
  PrintT("GEN " \o ToJson([nr |-> Cardinality(refs), hyps |-> hyps, result |-> result, repeated |-> repeated]))
=============================================================================
