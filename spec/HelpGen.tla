------------------------------- MODULE HelpGen -------------------------------
(***************************************************************************)
(* Every short history of declarations, with the answers to them and the     *)
(* resulting help text.                                                     *)
(***************************************************************************)
EXTENDS HelpText, Json
CONSTANTS MaxLen, Show

E(n, h, t) == [n |-> n, h |-> h, t |-> t]
Moves == {<<"opt", E(<<98>>, <<104,49>>, "i32")>>, <<"opt", E(<<98>>, <<104,50>>, "bool")>>, <<"opt", E(<<97, 97>>, <<>>, "string")>>,
          <<"opt", E(<<98, 97>>, <<120>>, "u8")>>, <<"opt", E(Reserved, <<121>>, "bool")>>,
          <<"arg", E(<<97>>, <<104,51>>, "u16")>>, <<"arg", E(<<108,111,110,103,101,114>>, <<104>>, "bool")>>,
          <<"oarg", E(<<99>>, <<122>>, "string")>>, <<"oarg", E(<<97>>, <<104,51>>, "i8")>>}
Value(t) == CASE t = "bool" -> <<116,114,117,101>> [] t = "string" -> <<111,32,118>> [] t \in {"u8", "i8"} -> <<55>> [] OTHER -> <<45,50>>
VARIABLES hist, P, ans
vars == <<hist, P, ans>>
Init == hist = <<>> /\ P = HNew /\ ans = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E m \in Moves : /\ hist' = Append(hist, <<m[1], m[2].n, m[2].h, m[2].t, Value(m[2].t)>>)
                            /\ P' = Declare(P, m[1], m[2])
                            /\ ans' = Append(ans, Accepted(P, m[1], m[2]))
Spec == Init /\ [][Next]_vars
Laws == WellFormed(P) /\ Len(P.opts) + Len(P.args) + Len(P.opt) = Cardinality({i \in 1..Len(ans) : ans[i]})
H == Help(P, <<112>>, IF Len(hist) % 2 = 0 THEN <<>> ELSE <<100>>, LAMBDA k, o : Value(o.t))
Emit == ~Show \/ PrintT("GEN " \o ToJson([hist |-> hist, ans |-> ans, lines |-> [i \in 1..Len(H) |-> H[i].text]]))
=============================================================================
