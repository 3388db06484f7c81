----------------------------- MODULE ReaderSpec -----------------------------
(***************************************************************************)
(* Reading an event file line by line (property C11), and a reader in use   *)
(* over several files (C18).                                                *)
(*                                                                         *)
(* A file is a sequence of byte values, a record type a sequence of field   *)
(* types: "s" a label, "u32"/"i32" a coordinate, "float" a score.           *)
(***************************************************************************)
EXTENDS TextFiles, NumberText

Types == ("lab"  :> <<"s", "s">>
       @@ "slab" :> <<"s", "s", "float">>
       @@ "ubox" :> <<"s", "s", "u32", "u32", "u32", "u32">>
       @@ "usbox" :> <<"s", "s", "u32", "u32", "u32", "u32", "float">>
       @@ "ibox" :> <<"s", "s", "i32", "i32", "i32", "i32">>
       @@ "isbox" :> <<"s", "s", "i32", "i32", "i32", "i32", "float">>
       @@ "int"  :> <<"i32">>)

FieldOk(ty, s) == CASE ty = "s" -> TRUE [] ty = "float" -> IsReal("float", s) [] OTHER -> IsInt(ty, s)

Ignored(line) == LET f == Fields(line) IN f = <<>> \/ f[1][1] = 35     \* blank or #
LineOk(kind, line) ==
  LET f == Fields(line) T == Types[kind] IN
  Len(f) = Len(T) /\ \A i \in 1..Len(f) : FieldOk(T[i], f[i])

(* The declarative meaning of a file: accepted or not, the first offending
   line, and the fields of each event.                                       *)
Meaning(kind, bytes) ==
  LET L == Lines(bytes)
      bad == {n \in 1..Len(L) : ~Ignored(L[n]) /\ ~LineOk(kind, L[n])}
  IN IF bad # {} THEN [ok |-> FALSE, line |-> CHOOSE n \in bad : \A k \in bad : n <= k, ev |-> <<>>]
     ELSE [ok |-> TRUE, line |-> 0,
           ev |-> LET keep == SelectSeq(L, LAMBDA x : ~Ignored(x)) IN [i \in 1..Len(keep) |-> Fields(keep[i])]]

(* Does the value v reported for a field agree with its text?  Labels and
   integers are reported as text, scores as binary numbers.                  *)
FieldIs(ty, s, v) == CASE ty = "s" -> v = s
                       [] ty = "float" -> RoundsTo("float", Decimal(s), v)
                       [] OTHER -> v = IntValue(s)
EventIs(kind, f, v) == LET T == Types[kind] IN
  Len(v) = Len(T) /\ \A i \in 1..Len(T) : FieldIs(T[i], f[i], v[i])
EventsAre(kind, ev, vs) == Len(vs) = Len(ev) /\ \A i \in 1..Len(ev) : EventIs(kind, ev[i], vs[i])

---------------------------------------------------------------------------
(* The reader at work: one line per step.  files are the files still to be   *)
(* read with one reader; done the outcomes so far.                           *)
CONSTANTS Kind, Worlds

VARIABLES files, todo, n, out, status, done
rvars == <<files, todo, n, out, status, done>>
RInit == /\ files \in Worlds /\ todo = <<>> /\ n = 0 /\ out = <<>> /\ status = "idle" /\ done = <<>>
Open == /\ status = "idle" /\ Len(done) < Len(files)
        /\ todo' = Lines(files[Len(done) + 1]) /\ n' = 0 /\ out' = <<>> /\ status' = "reading"
        /\ UNCHANGED <<files, done>>
ReadLine == /\ status = "reading" /\ todo # <<>>
            /\ n' = n + 1 /\ todo' = Tail(todo)
            /\ IF Ignored(todo[1]) THEN UNCHANGED <<out, status>>
               ELSE IF LineOk(Kind, todo[1]) THEN out' = Append(out, Fields(todo[1])) /\ UNCHANGED status
               ELSE status' = "failed" /\ UNCHANGED out
            /\ UNCHANGED <<files, done>>
Close == /\ \/ status = "failed"
            \/ status = "reading" /\ todo = <<>>
         /\ done' = Append(done, IF status = "failed" THEN [ok |-> FALSE, line |-> n, ev |-> <<>>]
                                 ELSE [ok |-> TRUE, line |-> 0, ev |-> out])
         /\ status' = "idle" /\ todo' = <<>> /\ n' = 0 /\ out' = <<>>   \* nothing is carried over
         /\ UNCHANGED files
RNext == Open \/ ReadLine \/ Close
RSpec == RInit /\ [][RNext]_rvars

\* every outcome is the meaning of its own file, whatever was read before
Faithful == \A i \in 1..Len(done) : done[i] = Meaning(Kind, files[i])
=============================================================================
