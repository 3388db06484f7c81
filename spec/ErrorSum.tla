------------------------------ MODULE ErrorSum ------------------------------
(***************************************************************************)
(* Error values and their sums (property C26).                              *)
(*                                                                         *)
(* An error has a false positive and a false negative mass (in units of      *)
(* 1/64).  A plain error stands for one match: it has one hypothesis unless   *)
(* it is a pure miss, and one reference unless it is a pure false positive.    *)
(* An error with counts carries the numbers of hypotheses and references it     *)
(* stands for; the numbers are <<hi, lo>> in base B, so that sums beyond 32      *)
(* bits can be told.  The state is a row of plain errors and a row of errors      *)
(* with counts; operation [o, i, j, k, e] (unused fields are 0 or Zero).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

B == 1048576
ONE == 64
Cnt(n) == <<n \div B, n % B>>
Plus(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + (lo \div B), lo % B>>
OneIf(c) == <<0, IF c THEN 1 ELSE 0>>

Err(fp, fn, nh, nr) == [fp |-> fp, fn |-> fn, nh |-> nh, nr |-> nr]
Plain(fp, fn) == Err(fp, fn, OneIf(fp > 0 \/ fn < ONE), OneIf(fp < ONE \/ fn > 0))
Zero == Err(0, 0, <<0, 0>>, <<0, 0>>)
Sum(a, b) == Err(a.fp + b.fp, a.fn + b.fn, Plus(a.nh, b.nh), Plus(a.nr, b.nr))
RECURSIVE SumAll(_)
SumAll(s) == IF s = <<>> THEN Zero ELSE Sum(SumAll(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

\* cells 1..Len(P) are the plain errors, the others those with counts
Cell(P, C, k) == IF k <= Len(P) THEN P[k] ELSE C[k - Len(P)]
Cells(P, C) == P \o C
NewP(P, C, c) ==
  CASE c.o = "plain" -> [P EXCEPT ![c.i] = Plain(c.e.fp, c.e.fn)]
    [] c.o = "copyp" -> [P EXCEPT ![c.i] = P[c.j]]
    [] OTHER -> P
NewC(P, C, c) ==
  CASE c.o = "counts" -> [C EXCEPT ![c.i] = c.e]
    [] c.o = "zero" -> [C EXCEPT ![c.i] = Zero]
    [] c.o = "copyc" -> [C EXCEPT ![c.i] = C[c.j]]
    [] c.o = "conv" -> [C EXCEPT ![c.i] = Cell(P, C, c.j)]            \* keeps all it stands for
    [] c.o = "add" -> [C EXCEPT ![c.i] = Sum(C[c.j], C[c.k])]
    [] c.o = "acc" -> [C EXCEPT ![c.i] = Sum(@, Cell(P, C, c.j))]       \* also with itself
    [] c.o = "fold" -> [C EXCEPT ![c.i] = SumAll(Cells(P, C))]
    [] OTHER -> C
SameP(a, b) == a.fp = b.fp /\ a.fn = b.fn
SameC(a, b) == a = b

---------------------------------------------------------------------------
CONSTANTS NP, NC, Masses, Counts
VARIABLES P, C, last
Op(o, i, j, k, e) == [o |-> o, i |-> i, j |-> j, k |-> k, e |-> e]
Ops ==
  {Op("plain", i, 0, 0, Err(m, n, <<0, 0>>, <<0, 0>>)) : i \in 1..NP, m \in Masses, n \in Masses}
  \cup {Op("counts", i, 0, 0, Err(m, n, Cnt(a), Cnt(b))) : i \in 1..NC, m \in Masses, n \in {ONE}, a \in Counts, b \in Counts}
  \cup {Op(o, i, 0, 0, Zero) : o \in {"zero", "fold"}, i \in 1..NC}
  \cup {Op("copyp", i, j, 0, Zero) : i \in 1..NP, j \in 1..NP}
  \cup {Op("copyc", i, j, 0, Zero) : i \in 1..NC, j \in 1..NC}
  \cup {Op(o, i, j, 0, Zero) : o \in {"conv", "acc"}, i \in 1..NC, j \in 1..(NP + NC)}
  \cup {Op("add", i, j, k, Zero) : i \in 1..NC, j \in 1..NC, k \in 1..NC}
SInit == P = [i \in 1..NP |-> Plain(0, 0)] /\ C = [i \in 1..NC |-> Zero] /\ last = Op("start", 0, 0, 0, Zero)
SNext == \E c \in Ops : P' = NewP(P, C, c) /\ C' = NewC(P, C, c) /\ last' = c
SSpec == SInit /\ [][SNext]_<<P, C, last>>
View == <<P, C>>
Few(c) == c[1] <= 2 /\ (c[2] <= 2 \/ c[2] >= B - 2)
Small == \A i \in 1..NC : C[i].fp <= 2 * ONE /\ C[i].fn <= 2 * ONE /\ Few(C[i].nh) /\ Few(C[i].nr)

\* sums do not depend on order or grouping, zero adds nothing
SumLaws ==
  \A a, b, c \in {C[i] : i \in 1..NC} \cup {P[i] : i \in 1..NP} :
    /\ Sum(a, b) = Sum(b, a)
    /\ Sum(Sum(a, b), c) = Sum(a, Sum(b, c))
    /\ Sum(a, Zero) = a
\* a plain error stands for at most one of each, for at least one of both
PlainLaws ==
  \A i \in 1..NP : LET p == P[i] IN
    /\ p.nh \in {<<0, 0>>, <<0, 1>>} /\ p.nr \in {<<0, 0>>, <<0, 1>>}
    /\ (p.fp = ONE /\ p.fn = 0) => p.nh = <<0, 1>> /\ p.nr = <<0, 0>>
    /\ (p.fp = 0 /\ p.fn = ONE) => p.nh = <<0, 0>> /\ p.nr = <<0, 1>>
    /\ (p.fp <= ONE /\ p.fn <= ONE) => p.nh # <<0, 0>> \/ p.nr # <<0, 0>>
\* an operation changes its target only; a sum grows
Targets == [][/\ \A i \in 1..NP : (last'.o \notin {"plain", "copyp"} \/ last'.i # i) => P'[i] = P[i]
              /\ \A i \in 1..NC : (last'.o \in {"plain", "copyp"} \/ last'.i # i) => C'[i] = C[i]
              /\ last'.o = "acc" => /\ C'[last'.i].fp >= C[last'.i].fp /\ C'[last'.i].fn >= C[last'.i].fn
                                    /\ (last'.j = NP + last'.i => C'[last'.i] = Sum(C[last'.i], C[last'.i]))]_<<P, C, last>>
=============================================================================
