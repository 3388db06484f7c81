---------------------------- MODULE ToolRunTrace ----------------------------
(***************************************************************************)
(* Recorded runs of the real tools in prepared environments.                 *)
(*  Record: [env, ok, lines, complained, other]                              *)
(*    lines: number of metric lines, in the right order, that standard output  *)
(*    consists of (-1: it holds something else); complained: an ERROR message on*)
(*    standard error; sig: ended by a signal or did not end.                 *)
(***************************************************************************)
EXTENDS TraceLib, FiniteSets
R == INSTANCE ToolRun WITH env <- 0, stage <- 0, toread <- 0, towrite <- 0, lines <- 0, complained <- 0, status <- 0
VARIABLE l
T == Trace[l]
TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF T.sig # "" THEN Reject(l, T.sig)
     ELSE IF R!Allowed(T.env, [ok |-> T.ok, lines |-> T.lines, complained |-> T.complained]) THEN TRUE
     ELSE Reject(l, <<"ok", T.ok, "lines", T.lines, "complained", T.complained>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
