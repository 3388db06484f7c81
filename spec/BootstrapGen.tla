---------------------------- MODULE BootstrapGen ----------------------------
(* Laws of the intervals, and every short history of sampled statistics with *)
(* the intervals that must come out.                                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS MaxR, Den, Values, Show, World
VARIABLES phase, sample, diffs
Orig == IF World = 1 THEN << <<0, 1>>, <<2>> >> ELSE IF World = 2 THEN << <<0>>, <<1>>, <<2>> >> ELSE << <<0, 1, 2>> >>
Stat(s) == FoldLeft(LAMBDA x, g : x + FoldLeft(LAMBDA y, m : y + m, 0, g), 0, s)     \* any function will do
B == INSTANCE Bootstrap WITH Orig <- Orig, Obs <- 2
Init == B!BInit
\* for replay only the sequence of sampled values matters
NextValue == /\ Len(diffs) < MaxR /\ \E v \in Values : diffs' = Append(diffs, v - 2) /\ UNCHANGED <<phase, sample>>
Spec == Init /\ [][IF Show THEN NextValue ELSE B!BNext]_<<phase, sample, diffs>>
SampleValid == B!SampleValid
Ordered == B!Ordered
Nested == B!Nested
Extreme == B!Extreme
Middle == B!Middle
Emit == Show => PrintT("GEN " \o ToJson([vals |-> [i \in 1..Len(diffs) |-> diffs[i] + 2], iv |-> [a \in 1..Den + 1 |-> B!Iv(a - 1)]]))
=============================================================================
