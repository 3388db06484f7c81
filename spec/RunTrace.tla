------------------------------ MODULE RunTrace ------------------------------
(***************************************************************************)
(* What an observation may depend on.  A record is a list of runs of the    *)
(* real code on different concrete inputs, each with what was observed.     *)
(* Class(run) is the part of the input the property says the observation is *)
(* a function of; runs of the same class must be observed alike.             *)
(*                                                                          *)
(* A run is [rf, hf, ...] over the value tables rt, ht of the record.        *)
(* The generator intends all runs of a record to be in the same class; a    *)
(* record where they are not is reported as MALFORMED (an error of the      *)
(* machinery, not of the code).                                             *)
(***************************************************************************)
EXTENDS TextFiles, TraceLib, Functions

VARIABLE l
R == Trace[l]
Judge == IOEnv.JUDGE

Elts(s) == {s[i] : i \in 1..Len(s)}
Bag(s) == [v \in Elts(s) |-> Cardinality({i \in 1..Len(s) : s[i] = v})]
Refs(r) == [i \in 1..Len(r.rf) |-> R.rt[r.rf[i]]]
Hyps(r) == [i \in 1..Len(r.hf) |-> R.ht[r.hf[i]]]

(* C04: the set of references and, when the hypotheses are sorted, their     *)
(* multiset; their sequence otherwise.                                      *)
Ranked(r) == IF r.sort \in {"desc", "asc"} THEN <<r.sort, Bag(r.hf)>> ELSE <<"file order", r.hf>>
ClassOrder(r) == << Elts(r.rf), Ranked(r) >>

(* C09: the events of the listed queries, in file order, and the groups of   *)
(* their queries.                                                           *)
GMap(r) == IF r.hasgrp THEN GroupMap(r.grp)
           ELSE IF r.hasset THEN [q \in QuerySet(r.set) |-> q] ELSE <<>>
ClassFilter(r) ==
  LET gm == GMap(r)
      Q == DOMAIN gm
      on == Q # {}
      kept(s) == IF on THEN SelectSeq(s, LAMBDA e : e.q \in Q) ELSE s
      rs == kept(Refs(r))
      hs == kept(Hyps(r))
      qs == {e.q : e \in Elts(rs) \cup Elts(hs)}
  IN << rs, hs, [q \in qs |-> GroupOf(gm, q)] >>

(* C20: the events up to the names of the labels.  names[k] is the label     *)
(* number k in this run; the numbers are the same in all runs of a record.   *)
Inj(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Num(r, str) == CHOOSE k \in 1..Len(r.names) : r.names[k] = str
ClassLabels(r) ==
  LET ref(e) == <<Num(r, e.q), Num(r, e.d)>>
      hyp(e) == <<Num(r, e.q), Num(r, e.d), e.s>>
      rs == [i \in 1..Len(r.refs) |-> ref(r.refs[i])]
      hs == [i \in 1..Len(r.hyps) |-> hyp(r.hyps[i])]
      gm == IF r.hasgrp THEN GroupMap(r.grp) ELSE <<>>
      qm == IF r.hasset THEN {Num(r, q) : q \in QuerySet(r.set)} ELSE {}
  IN IF ~Inj(r.names) THEN "names are not injective"
     ELSE << IF r.anyorder THEN Elts(rs) ELSE rs,
             IF r.anyorder THEN Bag(hs) ELSE hs,
             {<<Num(r, q), Num(r, gm[q])>> : q \in DOMAIN gm}, qm >>

(* C22: the files and the effective values of the options that matter.       *)
Defaults == [collapse_matches |-> "true", interpolated_precision |-> "true", trapezoid_integral |-> "true",
             sort |-> "desc", query_set |-> "", query_groups |-> ""]
ClassOptions(r) ==
  LET put(o, nv) == IF nv[1] \in DOMAIN Defaults THEN [o EXCEPT ![nv[1]] = nv[2]] ELSE o
  IN << r.rf, r.hf, FoldLeft(put, Defaults, r.opts) >>

(* C18: the input of the call.                                              *)
Class(r) == CASE Judge = "C04" -> ClassOrder(r)
              [] Judge = "C09" -> ClassFilter(r)
              [] Judge = "C20" -> ClassLabels(r)
              [] Judge = "C22" -> ClassOptions(r)
              [] Judge = "C18" -> r.in

(* Under renaming and reordering of equal scores the metrics are sums taken   *)
(* in another order: equal up to the last printed digit.                     *)
Alike(a, b) ==
  IF Judge = "C20" THEN /\ Len(a) = Len(b)
                        /\ \A i \in 1..Len(a) : a[i] - b[i] \in -12..12
  ELSE a = b
Good == \A i \in 1..Len(R.runs) : Alike(R.runs[i].obs, R.runs[1].obs)
WellFormed == LET c == [i \in 1..Len(R.runs) |-> Class(R.runs[i])]
              IN \A i \in 2..Len(c) : c[i] = c[1]
First == CHOOSE i \in 1..Len(R.runs) : ~Alike(R.runs[i].obs, R.runs[1].obs)

TraceInit == l = 1 /\ Consumed(0)
TraceNext ==
  /\ l <= Len(Trace)
  /\ IF Has(R, "crash") THEN Reject(l, R.crash)
     ELSE IF ~WellFormed THEN PrintT("MALFORMED " \o ToString(l))
     ELSE IF Good THEN TRUE
     ELSE Reject(l, <<"run", First, "differs from run 1", R.runs[First].obs, R.runs[1].obs>>)
  /\ l' = l + 1 /\ Consumed(l)
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
