----------------------------- MODULE Bootstrap ------------------------------
(***************************************************************************)
(* Bootstrap intervals (property C10).                                      *)
(*                                                                         *)
(* One repetition builds a sample of the groups of matches: as many groups    *)
(* as there are, each one drawn by choosing an original group and drawing, with*)
(* replacement, as many of its members as it has.  The statistic of the sample *)
(* minus the observed one is kept.  After the repetitions the interval of level*)
(* a/b is read off the sorted differences.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

---------------------------------------------------------------------------
(* sampling *)
DrawnFrom(s, g) == Len(s) = Len(g) /\ \A j \in 1..Len(s) : \E k \in 1..Len(g) : s[j] = g[k]
IsSample(orig, s) == Len(s) = Len(orig) /\ \A i \in 1..Len(s) : \E q \in 1..Len(orig) : DrawnFrom(s[i], orig[q])

---------------------------------------------------------------------------
(* intervals; positions count from 0 *)
Cap(k, R) == IF k > R - 1 THEN R - 1 ELSE k
LowPos(R, a, b) == Cap(((2 * b - a) * R) \div (2 * b), R)       \* gives the lower end
UpPos(R, a, b) == Cap((a * R) \div (2 * b), R)
Sorted(d) == SortSeq(d, LAMBDA x, y : x < y)
Interval(obs, diffs, a, b) ==
  LET R == Len(diffs)  d == Sorted(diffs) IN
  IF R = 0 THEN <<obs, obs>>
  ELSE <<obs - d[LowPos(R, a, b) + 1], obs - d[UpPos(R, a, b) + 1]>>

---------------------------------------------------------------------------
(* The computation, one step at a time.                                      *)
CONSTANTS Orig, Stat(_), Obs, MaxR, Den
VARIABLES phase, sample, diffs
bvars == <<phase, sample, diffs>>
BInit == phase = "sampling" /\ sample = <<>> /\ diffs = <<>>
AddGroup == /\ phase = "sampling" /\ Len(diffs) < MaxR /\ Len(sample) < Len(Orig)
            /\ \E q \in 1..Len(Orig) : \E f \in [1..Len(Orig[q]) -> 1..Len(Orig[q])] :
                 sample' = Append(sample, [j \in 1..Len(Orig[q]) |-> Orig[q][f[j]]])
            /\ UNCHANGED <<phase, diffs>>
Evaluate == /\ phase = "sampling" /\ Len(diffs) < MaxR /\ Len(sample) = Len(Orig)
            /\ diffs' = Append(diffs, Stat(sample) - Obs) /\ sample' = <<>> /\ UNCHANGED phase
BNext == AddGroup \/ Evaluate
BSpec == BInit /\ [][BNext]_bvars

SampleValid == Len(sample) = Len(Orig) => IsSample(Orig, sample)
Levels == 0..Den
Iv(a) == Interval(Obs, diffs, a, Den)
Ordered == \A a \in Levels : Iv(a)[1] <= Iv(a)[2]
Nested == \A a, c \in Levels : a <= c => Iv(a)[1] <= Iv(c)[1] /\ Iv(c)[2] <= Iv(a)[2]
Extreme == Len(diffs) > 0 => LET d == Sorted(diffs) IN Iv(0) = <<Obs - d[Len(d)], Obs - d[1]>>
Middle == Iv(Den)[1] = Iv(Den)[2]
=============================================================================
