----------------------------- MODULE ReaderGen ------------------------------
(***************************************************************************)
(* Every text of bounded length over a small alphabet, with its meaning.    *)
(***************************************************************************)
EXTENDS TextFiles, NumberText, Json

CONSTANTS K,             \* record type
          Alphabet, N, Pre, Post, Show

R == INSTANCE ReaderSpec WITH Kind <- K, Worlds <- {}, files <- <<>>, todo <- <<>>, n <- 0, out <- <<>>, status <- "", done <- <<>>

A1 == {49, 32, 10, 35, 97, 45}                  \* 1 space newline # a -
A2 == {97, 32, 10, 13, 35}
A3 == {48, 49, 46, 101, 45, 43}                  \* 0 1 . e - +
A4 == {57, 49, 32, 45, 46, 43}
Pfx0 == <<>>
PfxScore == <<113, 32, 100, 32>>                 \* "q d "
PfxBox == <<113, 32, 100, 32, 49, 32>>           \* "q d 1 "
SfxBox == <<32, 51, 32, 52>>                     \* " 3 4"

VARIABLE t
Init == t = <<>>
Next == Len(t) < N /\ \E c \in Alphabet : t' = Append(t, c)
Spec == Init /\ [][Next]_t

Text == Pre \o t \o Post
M == R!Meaning(K, Text)
\* CRLF for LF
Crlf(s) == FoldLeft(LAMBDA a, c : IF c = 10 THEN a \o <<13, 10>> ELSE Append(a, c), <<>>, s)
Laws ==
  LET m == M
      alone == IF m.ok THEN m.ev ELSE <<>>
  IN \* line endings, surrounding blanks, final newline, comments and blank lines are immaterial
     /\ R!Meaning(K, Crlf(Text)) = m
     /\ (Text = <<>> \/ Text[Len(Text)] # 10) => R!Meaning(K, Append(Text, 10)) = m
     /\ R!Meaning(K, <<32, 9>> \o Text) = m
     /\ R!Meaning(K, <<35, 49, 10>> \o Text) = [m EXCEPT !.line = IF m.ok THEN 0 ELSE @ + 1]
     \* files read one after the other are the file read at once
     /\ LET two == R!Meaning(K, Text \o <<10>> \o Text)
        IN two.ok = m.ok /\ two.ev = alone \o alone /\ two.line = m.line

Emit == Show => PrintT("GEN " \o ToJson([t |-> Text, ok |-> M.ok, line |-> M.line, ev |-> M.ev]))
=============================================================================
