------------------------------ MODULE Matching ------------------------------
(***************************************************************************)
(* The greedy matching of ranked hypotheses to references                   *)
(* (matcher/SimpleMatcher.h).                                               *)
(*                                                                          *)
(* refs is a set (the multiplicity of reference lines is irrelevant), hyps  *)
(* a sequence in rank order.  Cand(refs, h) is the sequence of the          *)
(* references h is acceptable against, most preferred first.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Cand(_, _), RefLess(_, _)

VARIABLES refs, hyps,
          pos,          \* hypotheses considered so far
          claimed,      \* references already hit
          result,       \* entries [h |-> rank, r |-> <<ref>>], 0 / <<>> when absent
          repeated,     \* entries [h |-> rank, r |-> <<ref>>]
          phase         \* "match" or "done"

mvars == <<refs, hyps, pos, claimed, result, repeated, phase>>

Start(R, H) ==
  /\ refs = R /\ hyps = H /\ pos = 0
  /\ claimed = {} /\ result = <<>> /\ repeated = <<>> /\ phase = "match"

Restart(R, H) ==
  /\ refs' = R /\ hyps' = H /\ pos' = 0
  /\ claimed' = {} /\ result' = <<>> /\ repeated' = <<>> /\ phase' = "match"

FirstFree(c) ==
  LET F == {i \in 1..Len(c) : c[i] \notin claimed}
  IN IF F = {} THEN Len(c) + 1 ELSE Min(F)

Hit(h, c, k) ==
  /\ k <= Len(c)
  /\ claimed' = claimed \cup {c[k]}
  /\ result' = Append(result, [h |-> h, r |-> <<c[k]>>])
FalsePositive(h, c) ==
  /\ c = <<>>
  /\ result' = Append(result, [h |-> h, r |-> <<>>])
  /\ UNCHANGED claimed
Repetition(c, k) ==
  /\ c # <<>> /\ k > Len(c)
  /\ UNCHANGED <<claimed, result>>

(* The next hypothesis in rank order is considered.                         *)
Consider ==
  /\ phase = "match" /\ pos < Len(hyps)
  /\ LET c == Cand(refs, hyps[pos + 1])
         k == FirstFree(c)
     IN /\ Hit(pos + 1, c, k) \/ FalsePositive(pos + 1, c) \/ Repetition(c, k)
        /\ repeated' = repeated \o [i \in 1..k - 1 |-> [h |-> pos + 1, r |-> <<c[i]>>]]
  /\ pos' = pos + 1
  /\ UNCHANGED <<refs, hyps, phase>>

(* References nobody claimed are misses, in increasing order.               *)
CloseMisses ==
  /\ phase = "match" /\ pos = Len(hyps)
  /\ LET m == SortSeq(SetToSeq(refs \ claimed), RefLess)
     IN result' = result \o [i \in 1..Len(m) |-> [h |-> 0, r |-> <<m[i]>>]]
  /\ phase' = "done"
  /\ UNCHANGED <<refs, hyps, pos, claimed, repeated>>

MNext == Consider \/ CloseMisses

---------------------------------------------------------------------------
(* Declarative properties of a finished matching.                           *)
Elts(s) == {s[i] : i \in 1..Len(s)}
Hits == {e \in Elts(result) : e.h > 0 /\ e.r # <<>>}
ClaimRank(r) == CHOOSE p \in 1..Len(hyps) : \E e \in Hits : e.h = p /\ e.r = <<r>>
HitRefs == {e.r[1] : e \in Hits}

RefsOnce == phase = "done" =>
  /\ {e.r[1] : e \in {x \in Elts(result) : x.r # <<>>}} = refs
  /\ \A r \in refs : Cardinality({i \in 1..Len(result) : result[i].r = <<r>>}) = 1

HypsOnce == phase = "done" =>
  \A p \in 1..Len(hyps) :
    LET c == Cand(refs, hyps[p])
        n == Cardinality({i \in 1..Len(result) : result[i].h = p})
        fp == \E i \in 1..Len(result) : result[i].h = p /\ result[i].r = <<>>
        ig == n = 0
    IN /\ n <= 1
       /\ fp <=> c = <<>>
       /\ ig <=> (c # <<>> /\ \A x \in Elts(c) : x \in HitRefs /\ ClaimRank(x) < p)
       /\ (~fp /\ ~ig) => \E x \in Elts(c) : [h |-> p, r |-> <<x>>] \in Hits

(* No hypothesis and reference would both do better with each other.        *)
Greedy == phase = "done" =>
  \A e \in Hits :
    LET c == Cand(refs, hyps[e.h])
        k == CHOOSE i \in 1..Len(c) : c[i] = e.r[1]
    IN \A i \in 1..k - 1 : c[i] \in HitRefs /\ ClaimRank(c[i]) < e.h

OrderLaw == phase = "done" =>
  LET n == Cardinality({i \in 1..Len(result) : result[i].h > 0})
  IN /\ \A i \in 1..n : result[i].h > 0
     /\ \A i \in 1..n - 1 : result[i].h < result[i + 1].h
     /\ \A i \in n + 1..Len(result) - 1 : RefLess(result[i].r[1], result[i + 1].r[1])

RepeatedLaw == phase = "done" =>
  /\ \A i \in 1..Len(repeated) - 1 : repeated[i].h <= repeated[i + 1].h
  /\ \A p \in 1..Len(hyps) :
       LET c == Cand(refs, hyps[p])
           mine == SelectSeq(repeated, LAMBDA e : e.h = p)
           before == {i \in 1..Len(c) :
                        \A j \in 1..i : c[j] \in HitRefs /\ ClaimRank(c[j]) < p}
       IN /\ Len(mine) = Cardinality(before)
          /\ \A i \in 1..Len(mine) : mine[i].r = <<c[i]>>

MatchingLaws == RefsOnce /\ HypsOnce /\ Greedy /\ OrderLaw /\ RepeatedLaw
=============================================================================
