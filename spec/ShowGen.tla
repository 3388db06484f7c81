------------------------------ MODULE ShowGen -------------------------------
(* Every value over small pools of parts, with the text that must be printed. *)
(* Error masses are k/64, which six digits show exactly.                    *)
EXTENDS ShowText, Json
CONSTANTS Labels, Nums, Masses, Show
VARIABLES v, text
Int2Text(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o (LET w == Len(ToString(Abs(n))) IN [i \in 1..w |-> 48 + ((Abs(n) \div (10 ^ (w - i))) % 10)])
Six(k) == LET x == StripTail(StripZeros(LET n == k * 15625 IN [i \in 1..7 |-> 48 + ((n \div (10 ^ (7 - i))) % 10)]), -6) IN
          General(FALSE, x[1], Len(x[1]) + x[2] - 1)
Mass(k) == [k |-> k, t |-> Six(k)]
Pool == {<<97>>, <<98, 233>>}       \* for the configuration: Labels <- Pool
L == {<<"t", x>> : x \in Labels}
N == {<<"n", Int2Text(n)>> : n \in Nums}
E4 == {<<<<"t", Six(a)>>, <<"t", Six(b)>>, <<"n", Int2Text(IF a > 0 \/ b < 64 THEN 1 ELSE 0)>>, <<"n", Int2Text(IF a < 64 \/ b > 0 THEN 1 ELSE 0)>>>> : a, b \in Masses}
Ev == {<<a, b, n, m, n, n>> : a, b \in L, n, m \in N}
Vals == {[kind |-> "box", a |-> <<a, b, c, d>>] : a, b, c, d \in N}
   \cup {[kind |-> "event", a |-> a] : a \in Ev}
   \cup {[kind |-> "err", e |-> e] : e \in E4}
   \cup {[kind |-> "match", hyp |-> <<>>, ref |-> r, e |-> e] : r \in {<<>>} \cup Ev, e \in E4}
Flat(ps) == FoldLeft(LAMBDA acc, p : acc \o p.lit, <<>>, ps)
Init == v \in Vals /\ text = Flat(Parts(v))
Next == UNCHANGED <<v, text>>
Spec == Init /\ [][Next]_<<v, text>>
(* The text belongs to the value, and determines it (of its kind).           *)
Fitting == IsPrinted(text, v)
Determined == v.kind = "box" => \A w \in Vals : (w.kind = "box" /\ IsPrinted(text, w)) => w = v
Emit == Show => PrintT("GEN " \o ToJson([v |-> v, text |-> text]))
=============================================================================
