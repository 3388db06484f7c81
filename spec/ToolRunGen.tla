----------------------------- MODULE ToolRunGen -----------------------------
(* Every environment with at most MaxFaults faults, the check of the machine *)
(* over all of them, and their enumeration for replay.                       *)
EXTENDS ToolRun, Sequences, TLC, Json
CONSTANTS MaxFaults
Refs == {"ok", "empty", "missing", "dir", "noperm", "malformed", "noname", "broken"}
Hyps == {"ok", "empty", "missing", "dir", "noperm", "malformed", "stdin", "stdin-empty", "stdin-malformed", "stdin-dir", "stdin-closed", "broken", "stdin-broken"}
Sets == {"none", "ok", "empty", "missing", "dir", "noperm", "broken"}
Grps == {"none", "ok", "empty", "missing", "dir", "noperm", "malformed", "broken"}
Outs == {"none", "ok", "nodir", "dir", "full", "noperm", "part"}
Souts == {"ok", "full", "closed"}
\* what the machine makes of an input that comes through standard input
Kind(x) == CASE x = "stdin" -> "ok" [] x = "stdin-empty" -> "empty" [] x = "stdin-malformed" -> "malformed"
             [] x = "stdin-dir" -> "dir" [] x = "stdin-closed" -> "closed" [] x = "stdin-broken" -> "broken" [] OTHER -> x
F(x, good) == IF x \in good THEN 0 ELSE 1
Good == {"none", "ok", "empty", "stdin", "stdin-empty"}
Faults(r, h, s, g, d, a, b, o) == F(r, Good) + F(h, Good) + F(s, Good) + F(g, Good) + F(d, Good) + F(a, Good) + F(b, Good) + F(o, Good)
\* empty files and standard input count as half a fault, to keep the number of combinations down
Odd(r, h, s, g) == F(r, {"ok"}) + F(h, {"ok", "stdin"}) + F(s, {"none", "ok"}) + F(g, {"none", "ok"})
Env(c, k) == [cmd |-> k, ref |-> c[1], hyp |-> Kind(c[2]), set |-> c[3], grp |-> c[4], dump |-> c[5], gc |-> c[6], mc |-> c[7], so |-> c[8]]
\* for the check of the machine one fault of each sort is enough, in any number
Envs == [cmd : {"ok", "bad", "help"}, ref : {"ok", "missing"}, hyp : {"ok", "closed"}, set : {"none", "ok", "dir"},
         grp : {"none", "ok", "malformed"}, dump : {"none", "ok", "full"}, gc : {"none", "ok", "nodir"},
         mc : {"none", "ok", "dir"}, so : {"ok", "full"}]
Init == InitFrom(Envs)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* enumeration: one state for each environment
GenInit ==
  /\ \E r \in Refs, h \in Hyps, s \in Sets, g \in Grps, k \in {"ok", "bad", "help"} :
       /\ F(r, Good) + F(h, Good) + F(s, Good) + F(g, Good) <= MaxFaults /\ Odd(r, h, s, g) <= MaxFaults
       /\ k # "ok" => h = "ok" /\ s = "ok" /\ g = "ok"
       /\ \E d \in Outs, a \in Outs, b \in Outs, o \in Souts :
            /\ Faults(r, h, s, g, d, a, b, o) <= MaxFaults
            /\ "part" \in {d, a, b} => "ok" \notin {d, a, b}     \* the limit is one for all files
            /\ k # "ok" => a = "ok" /\ b = "none"
            /\ env = Env(<<r, h, s, g, d, a, b, o>>, k) @@ [via |-> h]
  /\ stage = "" /\ toread = {} /\ towrite = {} /\ lines = 0 /\ complained = FALSE /\ status = 0
GenSpec == GenInit /\ [][FALSE]_vars
Emit == PrintT("GEN " \o ToJson(env))
=============================================================================
