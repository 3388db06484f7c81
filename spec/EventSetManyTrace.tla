------------------------- MODULE EventSetManyTrace --------------------------
(***************************************************************************)
(* Histories of the real event index with very many events.  The events are  *)
(* numbered: number k is the unit box at x = k, of query k % 3 and document    *)
(* k % 2 (or the plain event of that query and location k).  Record:            *)
(* [plain, ops |-> << [op, a, b, s, size, res], ... >>]: insert or remove every  *)
(* s-th number from a to b, clear, or look up the events met by the box of b      *)
(* units starting at number a; res: their numbers.                                *)
(***************************************************************************)
EXTENDS TraceLib, FiniteSets

VARIABLES S, l, i
tvars == <<S, l, i>>
R == Trace[l]
Op == R.ops[i]

Nums(a, b, s) == {a + s * k : k \in 0..((b - a) \div s)}
Class(k) == <<k % 3, k % 2>>
After == CASE Op.op = "I" -> S \cup Nums(Op.a, Op.b, Op.s)
           [] Op.op = "D" -> S \ Nums(Op.a, Op.b, Op.s)
           [] Op.op = "c" -> {}
           [] Op.op = "q" -> S
\* all overlaps are of one unit: the greater event comes first
RECURSIVE Down(_, _)
Down(k, a) == IF k < a THEN <<>> ELSE (IF k \in S /\ Class(k) = Class(a) THEN <<k>> ELSE <<>>) \o Down(k - 1, a)
Found == IF R.plain THEN IF Op.a \in S THEN <<Op.a>> ELSE <<>>
         ELSE Down(Op.a + Op.b - 1, Op.a)
TraceInit == S = {} /\ l = 1 /\ i = 1 /\ Consumed(0)
NextRecord == l' = l + 1 /\ i' = 1 /\ S' = {} /\ Consumed(l)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(R, "crash") THEN Reject(l, R.crash) /\ NextRecord
     ELSE IF i > Len(R.ops) THEN NextRecord
     ELSE LET n == After IN
          IF Op.size = Cardinality(n) /\ (Op.op = "q" => Op.res = Found) THEN S' = n /\ i' = i + 1 /\ l' = l
          ELSE Reject(l, <<i, Op, "size", Cardinality(n), IF Op.op = "q" THEN Found ELSE <<>>>>) /\ NextRecord
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
