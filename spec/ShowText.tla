------------------------------ MODULE ShowText ------------------------------
(***************************************************************************)
(* What is printed about boxes, events, errors and matches (operator<<,     *)
(* --dump_matches), the report and the curve files (property C25).          *)
(*                                                                         *)
(* A printed form is a sequence of parts: literal bytes, or a real number    *)
(* [neg, m, e] (m * 2^e, m decimal digits), which appears with six           *)
(* significant digits in the shorter of the notations, as C++ streams do it.  *)
(***************************************************************************)
EXTENDS NumberText, FiniteSets, FiniteSetsExt

---------------------------------------------------------------------------
(* the canonical text of a decimal number: digits d without zeros at either   *)
(* end, the first one standing for 10^X                                      *)
Zeros(n) == [i \in 1..n |-> 48]
Dec2(n) == IF n < 10 THEN <<48, 48 + n>> ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
           ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Abs(n) == IF n < 0 THEN -n ELSE n
General(neg, d, X) ==
  (IF neg THEN <<45>> ELSE <<>>) \o
  (IF d = <<48>> THEN <<48>>
   ELSE IF X < -4 \/ X >= 6
   THEN <<d[1]>> \o (IF Len(d) > 1 THEN <<46>> \o Tail(d) ELSE <<>>) \o <<101, IF X < 0 THEN 45 ELSE 43>> \o Dec2(Abs(X))
   ELSE IF X < 0 THEN <<48, 46>> \o Zeros(-X - 1) \o d
   ELSE IF Len(d) <= X + 1 THEN d \o Zeros(X + 1 - Len(d))
   ELSE SubSeq(d, 1, X + 1) \o <<46>> \o SubSeq(d, X + 2, Len(d)))
(* d.dddddde+xx *)
Scientific(neg, d, X) ==
  LET p == d \o Zeros(7 - Len(d)) IN
  (IF neg THEN <<45>> ELSE <<>>) \o <<p[1], 46>> \o SubSeq(p, 2, 7) \o <<101, IF X < 0 THEN 45 ELSE 43>> \o Dec2(Abs(X))

Infinity(v) == v.m = <<105>>            \* "i"
\* the decimal number x (Decimal of a text) is v rounded to n significant digits, ties to even
Pad(d, n) == d \o Zeros(n - Len(d))
RoundedTo(n, x, v) ==
  IF IsZero(x) THEN v.m = <<48>>
  ELSE /\ v.m # <<48>> /\ Len(x.d) <= n /\ x.neg = v.neg
       /\ LET D == FromDigits(Pad(x.d, n))                \* x = D * 10^k
              k == Magnitude(x) - n
              m == FromDigits(v.m)
              least == D = FromDigits(<<49>> \o Zeros(n - 1))    \* below a power of ten the digits are finer
              even == D[1] % 2 = 0
              cmp(a, j) == \* a * 10^j against v, a big
                LET A == MulPow(MulPow(a, 10, IF j > 0 THEN j ELSE 0), 2, IF v.e < 0 THEN -v.e ELSE 0)
                    B == MulPow(MulPow(m, 10, IF j < 0 THEN -j ELSE 0), 2, IF v.e > 0 THEN v.e ELSE 0)
                IN Cmp(A, B)
              up == cmp(AddSmall(MulSmall(D, 10), 5), k - 1)
              dn == IF least THEN cmp(Sub(MulSmall(D, 100), <<5>>), k - 2) ELSE cmp(Sub(MulSmall(D, 10), <<5>>), k - 1)
          IN /\ up > 0 \/ (up = 0 /\ even)
             /\ dn < 0 \/ (dn = 0 /\ even)
InfText(neg) == (IF neg THEN <<45>> ELSE <<>>) \o <<105, 110, 102>>
Canonical(s) == WellFormedReal(s) /\ LET x == Decimal(s) IN Len(x.d) <= 6 /\ s = General(x.neg, x.d, Magnitude(x) - 1)
CanonicalSci(s) ==
  WellFormedReal(s) /\ LET x == Decimal(s) IN
    IF IsZero(x) THEN s = Scientific(x.neg, <<48>>, 0)
    ELSE Len(x.d) <= 7 /\ s = Scientific(x.neg, x.d, Magnitude(x) - 1)
\* is s the printed form of v?
IsRealText(s, v) == IF Infinity(v) THEN s = InfText(v.neg)
                    ELSE Canonical(s) /\ LET x == Decimal(s) IN (x.neg = v.neg \/ IsZero(x)) /\ RoundedTo(6, x, v)
(* (the sign of a zero may show or not)                                      *)

---------------------------------------------------------------------------
(* parts of the printed forms *)
Lit(s) == [lit |-> s]
Sp == <<32>>
Comma == <<44, 32>>
RECURSIVE Fuse(_)
Fuse(ps) ==   \* neighbouring literals in one
  IF Len(ps) < 2 THEN ps
  ELSE IF "lit" \in DOMAIN ps[1] /\ "lit" \in DOMAIN ps[2] THEN Fuse(<<Lit(ps[1].lit \o ps[2].lit)>> \o SubSeq(ps, 3, Len(ps)))
  ELSE <<ps[1]>> \o Fuse(Tail(ps))
(* An attribute is <<"t", bytes>>, <<"n", decimal text>> or <<"r", real>>.     *)
Attr(a) == IF a[1] = "r" THEN [real |-> a[2]] ELSE Lit(a[2])
Joined(as) == FoldLeft(LAMBDA acc, a : IF acc = <<>> THEN <<Attr(a)>> ELSE acc \o <<Lit(Sp), Attr(a)>>, <<>>, as)
FpEq == <<102, 112, 61>>
FnEq == <<102, 110, 61>>
NhEq == <<110, 104, 61>>
NrEq == <<110, 114, 61>>
ErrName == <<77, 97, 116, 99, 104, 69, 114, 114, 111, 114>>                          \* MatchError
CntName == ErrName \o <<67, 111, 117, 110, 116, 115>>                                 \* MatchErrorCounts
MatchName == <<77, 97, 116, 99, 104>>
HypEq == <<72, 121, 112, 61>>
RefEq == <<82, 101, 102, 61>>
ErrEq == <<69, 114, 114, 111, 114, 61>>
(* errors: attributes fp, fn, nh, nr *)
ErrParts(name, e) == <<Lit(name \o <<91>> \o FpEq), Attr(e[1]), Lit(Comma \o FnEq), Attr(e[2]), Lit(Comma \o NhEq), Attr(e[3]), Lit(Comma \o NrEq), Attr(e[4]), Lit(<<93>>)>>
(* a match: hyp and ref are sequences of attributes, empty when absent        *)
MatchParts(hyp, ref, e) ==
  <<Lit(MatchName \o <<91>>)>>
  \o (IF hyp = <<>> THEN <<>> ELSE <<Lit(HypEq)>> \o Joined(hyp) \o <<Lit(Comma)>>)
  \o (IF ref = <<>> THEN <<>> ELSE <<Lit(RefEq)>> \o Joined(ref) \o <<Lit(Comma)>>)
  \o <<Lit(ErrEq)>> \o ErrParts(ErrName, e) \o <<Lit(<<93>>)>>
Parts(v) == Fuse(CASE v.kind = "err" -> ErrParts(ErrName, v.e)
                   [] v.kind = "cnt" -> ErrParts(CntName, v.e)
                   [] v.kind = "match" -> MatchParts(v.hyp, v.ref, v.e)
                   [] OTHER -> Joined(v.a))

RealChars == 48..57 \cup {43, 45, 46, 101, 105, 110, 102}
RECURSIVE Fits(_, _)
Fits(s, ps) ==     \* s is a text of the parts ps (fused)
  IF ps = <<>> THEN s = <<>>
  ELSE IF "lit" \in DOMAIN ps[1]
  THEN LET n == Len(ps[1].lit) IN Len(s) >= n /\ SubSeq(s, 1, n) = ps[1].lit /\ Fits(SubSeq(s, n + 1, Len(s)), Tail(ps))
  ELSE LET stop == Pos(s, LAMBDA c : c \notin RealChars)
           n == IF stop = 0 THEN Len(s) ELSE stop - 1
       IN n > 0 /\ IsRealText(SubSeq(s, 1, n), ps[1].real) /\ Fits(SubSeq(s, n + 1, Len(s)), Tail(ps))
IsPrinted(s, v) == Fits(s, Parts(v))

(* Read back with operator>>: the same values; reals are those of their text.  *)
IsReadBack(s, v, b) ==
  /\ b.ok /\ Len(b.a) = Len(v.a)
  /\ \A i \in 1..Len(v.a) :
       IF v.a[i][1] # "r" THEN b.a[i] = v.a[i]
       ELSE \* the text of the number stands between spaces
            LET sp == SetToSortSeq({k \in 1..Len(s) : s[k] = 32}, <)
                from == IF i = 1 THEN 1 ELSE sp[i - 1] + 1
                to == IF i > Len(sp) THEN Len(s) ELSE sp[i] - 1
            IN RoundsTo(b.a[i][3], Decimal(SubSeq(s, from, to)), b.a[i][2])

---------------------------------------------------------------------------
ASSUME /\ General(FALSE, <<49>>, 0) = <<49>> /\ General(TRUE, <<53>>, -1) = <<45, 48, 46, 53>>
       /\ General(FALSE, <<49>>, 6) = <<49, 101, 43, 48, 54>> /\ General(FALSE, <<49>>, 5) = <<49, 48, 48, 48, 48, 48>>
       /\ General(FALSE, <<49, 50>>, -5) = <<49, 46, 50, 101, 45, 48, 53>> /\ General(FALSE, <<49, 50>>, -4) = <<48, 46, 48, 48, 48, 49, 50>>
       /\ General(FALSE, <<49, 50, 51>>, 1) = <<49, 50, 46, 51>>
ASSUME /\ Canonical(<<49, 46, 53>>) /\ ~Canonical(<<49, 46, 53, 48>>) /\ ~Canonical(<<46, 53>>) /\ Canonical(<<48>>) /\ ~Canonical(<<49, 101, 48>>)
       /\ CanonicalSci(<<48, 46, 48, 48, 48, 48, 48, 48, 101, 43, 48, 48>>) /\ CanonicalSci(<<53, 46, 48, 48, 48, 48, 48, 48, 101, 45, 48, 49>>)
\* 0.1f is 0.1000000014...; 1/64 has seven digits; 2^24 + 1 is beyond float; ties go to even
ASSUME /\ IsRealText(<<48, 46, 49>>, [neg |-> FALSE, m |-> <<49, 51, 52, 50, 49, 55, 55, 51>>, e |-> -27])
       /\ ~IsRealText(<<48, 46, 49, 48, 48, 48, 48, 49>>, [neg |-> FALSE, m |-> <<49, 51, 52, 50, 49, 55, 55, 51>>, e |-> -27])
       /\ IsRealText(<<48, 46, 48, 49, 53, 54, 50, 53>>, [neg |-> FALSE, m |-> <<49>>, e |-> -6])
       /\ IsRealText(<<49, 46, 54, 55, 55, 55, 50, 101, 43, 48, 55>>, [neg |-> FALSE, m |-> <<49, 54, 55, 55, 55, 50, 49, 54>>, e |-> 0])
       /\ IsRealText(<<49, 48, 48, 48, 48, 48>>, [neg |-> FALSE, m |-> <<50, 48, 48, 48, 48, 49>>, e |-> -1])     \* 100000.5
       /\ IsRealText(<<49, 48, 48, 48, 48, 50>>, [neg |-> FALSE, m |-> <<50, 48, 48, 48, 48, 51>>, e |-> -1])     \* 100001.5
       /\ IsRealText(<<49, 101, 43, 48, 54>>, [neg |-> FALSE, m |-> <<49, 57, 57, 57, 57, 57, 57>>, e |-> -1])    \* 999999.5
=============================================================================
