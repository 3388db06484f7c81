------------------------------ MODULE ToolRun -------------------------------
(***************************************************************************)
(* A complete run of a tool as a state machine over a faulty environment     *)
(* (property C17).                                                           *)
(*                                                                         *)
(* The environment env is fixed at the start:                                *)
(*   cmd            ok, help, bad                                             *)
(*   ref, hyp, set, grp  the inputs: none (not given), ok, empty, or one of the *)
(*                  faults missing, dir (exists, cannot be read), noperm,      *)
(*                  malformed, noname (the empty name), closed (no descriptor),  *)
(*                  broken (reading fails after a while)                       *)
(*   dump, gc, mc   output files: none, ok or one of nodir, dir, full, noperm,   *)
(*                  part (the file cannot grow beyond some size)                *)
(*   so             standard output: ok, full, closed                           *)
(* The machine reads the inputs in some order, then produces its outputs in     *)
(* some order, and may give up as soon as it meets a fault.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

InputFault == {"missing", "dir", "noperm", "malformed", "noname", "closed", "broken"}
OutputFault == {"nodir", "dir", "full", "noperm", "closed", "part"}
Inputs == {"ref", "hyp", "set", "grp"}
Outputs == {"dump", "gc", "mc"}
Metrics == 4

\* a file of groups supersedes the set of queries, which may then go unread
Superseded(e, i) == i = "set" /\ e.grp # "none"
BadInput(e, i) == e[i] \in InputFault
BadOutput(e, o) == e[o] \in OutputFault

VARIABLES env, stage, toread, towrite, lines, complained, status
vars == <<env, stage, toread, towrite, lines, complained, status>>

InitFrom(envs) ==
  /\ env \in envs
  /\ stage = "command" /\ toread = {} /\ towrite = {} /\ lines = 0
  /\ complained = FALSE /\ status = -1

Fail == /\ stage' = "done" /\ status' = 1 /\ complained' = TRUE
        /\ UNCHANGED <<env, toread, towrite, lines>>

Command ==
  /\ stage = "command"
  /\ CASE env.cmd = "bad" -> Fail
       [] env.cmd = "help" -> stage' = "done" /\ status' = 0 /\ UNCHANGED <<env, toread, towrite, lines, complained>>
       [] OTHER -> /\ stage' = "reading"
                   /\ toread' = {i \in Inputs : env[i] # "none"}
                   /\ UNCHANGED <<env, towrite, lines, complained, status>>

Read(i) ==
  /\ stage = "reading" /\ i \in toread
  /\ IF BadInput(env, i) THEN Fail
     ELSE toread' = toread \ {i} /\ UNCHANGED <<env, stage, towrite, lines, complained, status>>
Skip(i) ==
  /\ stage = "reading" /\ i \in toread /\ Superseded(env, i)
  /\ toread' = toread \ {i} /\ UNCHANGED <<env, stage, towrite, lines, complained, status>>
Match ==
  /\ stage = "reading" /\ toread = {}
  /\ stage' = "writing" /\ towrite' = {o \in Outputs : env[o] # "none"}
  /\ UNCHANGED <<env, toread, lines, complained, status>>
Write(o) ==
  /\ stage = "writing" /\ o \in towrite
  /\ IF BadOutput(env, o) THEN Fail
     ELSE towrite' = towrite \ {o} /\ UNCHANGED <<env, stage, toread, lines, complained, status>>
Print ==
  /\ stage = "writing" /\ lines < Metrics
  /\ IF env.so = "ok" THEN lines' = lines + 1 /\ UNCHANGED <<env, stage, toread, towrite, complained, status>>
     ELSE Fail
Exit ==
  /\ stage = "writing" /\ towrite = {} /\ lines = Metrics
  /\ stage' = "done" /\ status' = 0
  /\ UNCHANGED <<env, toread, towrite, lines, complained>>
Next == Command \/ Match \/ Print \/ Exit \/ \E i \in Inputs : Read(i) \/ Skip(i)
        \/ \E o \in Outputs : Write(o)

---------------------------------------------------------------------------
(* What can be seen of a finished run: o = [ok |-> status 0, lines, complained] *)
InputFaults(e) == {i \in Inputs : BadInput(e, i)}
Certain(e) == {i \in InputFaults(e) : ~Superseded(e, i)}
OutputFaults(e) == {o \in Outputs : BadOutput(e, o)}

Allowed(e, o) ==
  IF e.cmd = "bad" THEN ~o.ok /\ o.lines = 0 /\ o.complained
  ELSE IF e.cmd = "help" THEN o.ok /\ o.lines = 0
  ELSE IF Certain(e) # {} THEN ~o.ok /\ o.lines = 0 /\ o.complained
  ELSE \/ InputFaults(e) # {} /\ ~o.ok /\ o.lines = 0 /\ o.complained
       \/ IF OutputFaults(e) # {} \/ e.so # "ok"
          THEN ~o.ok /\ o.complained /\ o.lines \in 0..Metrics /\ (e.so # "ok" => o.lines = 0)
          ELSE o.ok /\ o.lines = Metrics

Observed == [ok |-> status = 0, lines |-> lines, complained |-> complained]
FinalAllowed == stage = "done" => Allowed(env, Observed)
SuccessIsComplete == stage = "done" /\ status = 0 /\ env.cmd = "ok" =>
  lines = Metrics /\ towrite = {} /\ Certain(env) = {} /\ OutputFaults(env) = {} /\ env.so = "ok"
NothingBeforeInputErrors == toread # {} => lines = 0
FailureIsTold == stage = "done" /\ status # 0 => complained
Finishes == <>(stage = "done")
=============================================================================
