----------------------------- MODULE TextFiles ------------------------------
(***************************************************************************)
(* Text files as sequences of byte values: lines, fields, and the query-set *)
(* and query-groups files.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

IsBlank(c) == c \in {32, 9, 10, 11, 12, 13}       \* isspace in the C locale

(* Lines, as std::getline delivers them: a final newline ends the last line  *)
(* and does not start another one.                                           *)
Lines(bytes) ==
  LET step(acc, c) == IF c = 10 THEN [done |-> Append(acc.done, acc.cur), cur |-> <<>>, open |-> FALSE]
                      ELSE [done |-> acc.done, cur |-> Append(acc.cur, c), open |-> TRUE]
      r == FoldLeft(step, [done |-> <<>>, cur |-> <<>>, open |-> FALSE], bytes)
  IN IF r.open THEN Append(r.done, r.cur) ELSE r.done

(* Maximal runs of non-blank bytes.                                          *)
Fields(bytes) ==
  LET step(acc, c) ==
        IF IsBlank(c) THEN [acc EXCEPT !.in = FALSE]
        ELSE IF acc.in THEN [acc EXCEPT !.f[Len(acc.f)] = Append(@, c)]
        ELSE [f |-> Append(acc.f, <<c>>), in |-> TRUE]
  IN FoldLeft(step, [f |-> <<>>, in |-> FALSE], bytes).f

(* The queries of a query-set file: every field, wherever it stands.         *)
QuerySet(bytes) == LET f == Fields(bytes) IN {f[i] : i \in 1..Len(f)}

(* A query-groups file is valid when each line has at least two fields.      *)
GroupsValid(bytes) == LET L == Lines(bytes) IN \A i \in 1..Len(L) : Len(Fields(L[i])) >= 2
(* query -> group; a later assignment replaces an earlier one.               *)
GroupMap(bytes) ==
  LET L == Lines(bytes)
      put(m, q, g) == [k \in DOMAIN m \cup {q} |-> IF k = q THEN g ELSE m[k]]
      line(m, s) == LET f == Fields(s)
                    IN FoldLeft(LAMBDA a, i : put(a, f[i], f[1]), m, [i \in 1..Len(f) - 1 |-> i + 1])
  IN FoldLeft(line, <<>>, L)
GroupOf(m, q) == IF q \in DOMAIN m THEN m[q] ELSE q

ASSUME Fields(<<32, 97, 98, 9, 99, 13>>) = <<<<97, 98>>, <<99>>>>
ASSUME Lines(<<97, 10, 10, 98>>) = <<<<97>>, <<>>, <<98>>>>
ASSUME Lines(<<97, 10>>) = <<<<97>>>> /\ Lines(<<>>) = <<>> /\ Lines(<<10>>) = <<<<>>>>
ASSUME GroupMap(<<97, 32, 98, 10, 99, 32, 98, 32, 100>>) = (<<98>> :> <<99>> @@ <<100>> :> <<99>>)
=============================================================================
