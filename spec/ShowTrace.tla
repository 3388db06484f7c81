----------------------------- MODULE ShowTrace ------------------------------
(***************************************************************************)
(* Recorded printing.                                                       *)
(*  [vals]: values printed one after another on one stream and read back:     *)
(*     each [v, text, back] (back optional).                                *)
(*  [dump, hs, rs]: lines of a dump; the events of the files (optional: the     *)
(*     other tool numbers its labels, see LabelTrace).                        *)
(*  [report, iv]: lines of a report; which metrics have an interval.         *)
(*  [curves]: lines of the curve files.                                     *)
(***************************************************************************)
EXTENDS ShowText, TraceLib
VARIABLE l
T == Trace[l]

ValGood(x) == IsPrinted(x.text, x.v) /\ (Has(x, "back") => IsReadBack(x.text, x.v, x.back))

N01(b) == <<"n", IF b THEN <<49>> ELSE <<48>>>>
Real01(b) == <<"r", [neg |-> FALSE, m |-> IF b THEN <<49>> ELSE <<48>>, e |-> 0]>>
E(fp, fn, nh, nr) == <<Real01(fp), Real01(fn), N01(nh), N01(nr)>>
RepHead == <<35, 35, 35, 35, 32, 82, 69, 80, 69, 65, 84, 69, 68, 32, 77, 65, 84, 67, 72, 69, 83, 32, 35, 35, 35, 35>>
Prefix(p, s) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
LineGood(s) ==
  \/ \E h \in 1..Len(T.hs), r \in 1..Len(T.rs) : IsPrinted(s, [kind |-> "match", hyp |-> T.hs[h], ref |-> T.rs[r], e |-> E(FALSE, FALSE, TRUE, TRUE)])
  \/ \E h \in 1..Len(T.hs) : IsPrinted(s, [kind |-> "match", hyp |-> T.hs[h], ref |-> <<>>, e |-> E(TRUE, FALSE, TRUE, FALSE)])
  \/ \E r \in 1..Len(T.rs) : IsPrinted(s, [kind |-> "match", hyp |-> <<>>, ref |-> T.rs[r], e |-> E(FALSE, TRUE, FALSE, TRUE)])
DumpGood ==
  Has(T, "dump") =>
  LET heads == {i \in 1..Len(T.dump) : T.dump[i] = RepHead} IN
  /\ Cardinality(heads) = 1
  /\ LET h == CHOOSE i \in heads : TRUE IN
     /\ \A i \in 1..h - 1 : LineGood(T.dump[i])
     /\ \A i \in h + 1..Len(T.dump) : Prefix(<<35, 35, 32>>, T.dump[i]) /\ LineGood(SubSeq(T.dump[i], 4, Len(T.dump[i])))

Names == <<<<103, 65, 80>>, <<109, 65, 80>>, <<103, 78, 68, 67, 71>>, <<109, 78, 68, 67, 71>>>>
RealAt(s, i) == \* the text of the number that starts at position i
  LET u == SubSeq(s, i, Len(s))
      stop == Pos(u, LAMBDA c : c \notin RealChars)
  IN IF stop = 0 THEN u ELSE SubSeq(u, 1, stop - 1)
ReportLine(s, name, iv) ==
  LET pre == name \o <<32, 61, 32>>
      v == RealAt(s, Len(pre) + 1)
      lo == RealAt(s, Len(pre) + Len(v) + 3)
      hi == RealAt(s, Len(pre) + Len(v) + 3 + Len(lo) + 2)
  IN IF iv THEN /\ s = pre \o v \o <<32, 91>> \o lo \o <<44, 32>> \o hi \o <<93>>
                /\ Canonical(v) /\ Canonical(lo) /\ Canonical(hi)
     ELSE s = pre \o v /\ Canonical(v)
ReportGood == Len(T.report) = 4 /\ \A i \in 1..4 : ReportLine(T.report[i], Names[i], T.iv[i])

CurveLine(s) == LET x == RealAt(s, 1) y == RealAt(s, Len(x) + 2) IN s = x \o <<32>> \o y /\ CanonicalSci(x) /\ CanonicalSci(y)
CurvesGood == \A i \in 1..Len(T.curves) : CurveLine(T.curves[i])

Good == IF Has(T, "vals") THEN \A i \in 1..Len(T.vals) : ValGood(T.vals[i])
        ELSE DumpGood /\ ReportGood /\ CurvesGood
Why == IF Has(T, "vals") THEN <<"printed", {i \in 1..Len(T.vals) : ~IsPrinted(T.vals[i].text, T.vals[i].v)},
                                "read back", {i \in 1..Len(T.vals) : ~ValGood(T.vals[i])}>>
       ELSE <<"dump", DumpGood, "report", ReportGood, "curves", CurvesGood>>
TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(T, "crash") THEN Reject(l, T.crash)
     ELSE IF Good THEN TRUE ELSE Reject(l, Why)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
