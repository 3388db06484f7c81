---------------------------- MODULE ReaderTrace -----------------------------
(***************************************************************************)
(* Checks recorded uses of the real readers.  Record:                       *)
(*  [kind, trips, calls |-> << [there, pre, b, ok, line, vs, tr] >>]        *)
(* pre: comment lines in front of the text b, which only shift its lines;   *)
(* there: is there a file to read at all; broken: reading fails after b;   *)
(* line: the line named in the error *)
(* (-1: none).  Every call is judged on its own: the outcome may not depend *)
(* on earlier ones.  tr: the events after printing and reading back.        *)
(***************************************************************************)
EXTENDS TraceLib, TextFiles, NumberText

VARIABLE l
vars == <<l>>
R == INSTANCE ReaderSpec WITH Kind <- "", Worlds <- {}, files <- <<>>, todo <- <<>>, n <- 0, out <- <<>>, status <- "", done <- <<>>

T == Trace[l]
(* A score is printed with six significant digits.                          *)
Printable(f) == LET ty == R!Types[T.kind] IN
  \A i \in 1..Len(ty) : ty[i] = "float" =>
     LET x == Decimal(f[i]) IN IsZero(x) \/ (Len(x.d) <= 6 /\ Magnitude(x) \in -36..38)
TripsOk(m, c) == /\ Len(c.tr) = Len(c.vs)
                 /\ \A i \in 1..Len(c.tr) : Printable(m.ev[i]) => c.tr[i] = c.vs[i]
CallOk(c) ==
  IF ~c.there THEN ~c.ok
  ELSE IF c.broken THEN ~c.ok          \* reading failed somewhere: whatever was read is not the file
  ELSE LET m == R!Meaning(T.kind, c.b)
       IN /\ c.ok = m.ok
          /\ m.ok => R!EventsAre(T.kind, m.ev, c.vs) /\ (T.trips => TripsOk(m, c))
          /\ ~m.ok => c.line = m.line + c.pre
Good == (\A i \in 1..Len(T.calls) : CallOk(T.calls[i]))
First == LET B == {i \in 1..Len(T.calls) : ~CallOk(T.calls[i])} IN CHOOSE i \in B : \A k \in B : i <= k

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE IF Good THEN TRUE
     ELSE Reject(l, <<"call", First, T.calls[First],
                      IF T.calls[First].there THEN R!Meaning(T.kind, T.calls[First].b) ELSE "no file">>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
