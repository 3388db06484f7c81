----------------------------- MODULE MapperSpec -----------------------------
(***************************************************************************)
(* The shared label mapping under any history of lookups (property C14).    *)
(*                                                                         *)
(* The mapping is the sequence of known labels in the order of their first  *)
(* lookup: the number of a label is its position minus one.  Cap is the     *)
(* number of values of the target type (0 .. Cap-1).  Any number of handles *)
(* (the mapper, copies of it, event and scored-event mappers on top of it)  *)
(* work on the same mapping.                                                *)
(*                                                                         *)
(* An event mapper looks up the query and the location; which of the two    *)
(* comes first is left open, so a lookup has a set of possible outcomes:    *)
(* [known, res], res being the reported numbers or "range".                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Index(known, x) == IF \E i \in 1..Len(known) : known[i] = x THEN CHOOSE i \in 1..Len(known) : known[i] = x ELSE 0

\* one label
Look(known, x, cap) ==
  LET i == Index(known, x) IN
  IF i # 0 THEN [known |-> known, ok |-> TRUE, num |-> i - 1]
  ELSE IF Len(known) < cap THEN [known |-> Append(known, x), ok |-> TRUE, num |-> Len(known)]
  ELSE [known |-> known, ok |-> FALSE, num |-> -1]

LabelOutcomes(known, x, cap) ==
  LET r == Look(known, x, cap) IN {[known |-> r.known, ok |-> r.ok, nums |-> IF r.ok THEN <<r.num>> ELSE <<>>]}
EventOutcomes(known, q, d, cap) ==
  LET two(a, b, swap) ==
        LET r == Look(known, a, cap)
            s == Look(r.known, b, cap)
        IN IF ~r.ok THEN [known |-> known, ok |-> FALSE, nums |-> <<>>]
           ELSE IF ~s.ok THEN [known |-> s.known, ok |-> FALSE, nums |-> <<>>]
           ELSE [known |-> s.known, ok |-> TRUE, nums |-> IF swap THEN <<s.num, r.num>> ELSE <<r.num, s.num>>]
  IN {two(q, d, FALSE), two(d, q, TRUE)}

---------------------------------------------------------------------------
CONSTANTS Labels, Cap
VARIABLES known, last
mvars == <<known, last>>
MInit == known = <<>> /\ last = [ok |-> TRUE, nums |-> <<>>, asked |-> <<>>]
Do(outcomes, asked) == \E o \in outcomes : known' = o.known /\ last' = [ok |-> o.ok, nums |-> o.nums, asked |-> asked]
LookLabel(x) == Do(LabelOutcomes(known, x, Cap), <<x>>)
LookEvent(q, d) == Do(EventOutcomes(known, q, d, Cap), <<q, d>>)
MNext == \/ \E x \in Labels : LookLabel(x)
         \/ \E q, d \in Labels : LookEvent(q, d)
MSpec == MInit /\ [][MNext]_mvars

Injective == \A i, j \in 1..Len(known) : known[i] = known[j] => i = j
Dense == Len(known) <= Cap
Answered == /\ last.ok => /\ Len(last.nums) = Len(last.asked)
                          /\ \A i \in 1..Len(last.asked) : known[last.nums[i] + 1] = last.asked[i]
            /\ ~last.ok => Len(known) = Cap /\ \E i \in 1..Len(last.asked) : Index(known, last.asked[i]) = 0
\* nothing is ever renumbered or forgotten
Stable == [][\A i \in 1..Len(known) : i <= Len(known') /\ known'[i] = known[i]]_mvars
=============================================================================
