--------------------------- MODULE CommandLineGen ---------------------------
(***************************************************************************)
(* Every argument vector up to a length over a small alphabet of tokens, fed *)
(* to the parser token by token, for several declarations.                   *)
(***************************************************************************)
EXTENDS CommandLine, Json, TLC
CONSTANTS MaxLen, Which

t_n == <<45, 45, 110>>                          \* --n
t_b == <<45, 45, 98>>                           \* --b
t_s == <<45, 45, 115>>                          \* --s
t_x == <<45, 45, 120>>                          \* --x, never declared
t_sn == <<45, 110>>                             \* -n
t_an == <<45, 97, 110>>                         \* -an
t_5 == <<53>>
t_neg == <<45, 49>>                             \* -1
t_a == <<97>>
t_dash == <<45>>
t_bn == <<98, 110>>
Alphabet == {t_n, t_b, t_s, t_x, t_5, t_neg, t_a, t_dash, DD, HelpToken, T_false, t_sn, t_an}
O(n, t) == [n |-> n, t |-> t]
Decls == <<
  [opts |-> <<O(<<110>>, "u8"), O(<<98>>, "bool"), O(<<115>>, "string")>>, args |-> <<"i16">>, opt |-> <<"string">>],
  [opts |-> <<O(<<98>>, "bool"), O(<<110>>, "i32")>>, args |-> <<>>, opt |-> <<"bool", "i8">>],
  [opts |-> <<O(<<115>>, "string")>>, args |-> <<"string", "bool">>, opt |-> <<>>] >>

VARIABLES d, argv, p
vars == <<d, argv, p>>
Init == d \in Which /\ argv = <<>> /\ p = PStart(Decls[d])
Next == \E s \in Alphabet : Len(argv) < MaxLen /\ argv' = Append(argv, s) /\ p' = PStep(Decls[d], p, s) /\ d' = d
Spec == Init /\ [][Next]_vars

\* the parser at work and the grammar describe the same
Agree == PEnd(Decls[d], p) = Grammar(Decls[d], argv)
\* a decided outcome stays
Final == [][p.st # "run" => p'.st = p.st]_vars
Emit == PrintT("GEN " \o ToJson([d |-> Decls[d], argv |-> argv, r |-> PEnd(Decls[d], p), h |-> AsksHelp(Decls[d], argv)]))
=============================================================================
