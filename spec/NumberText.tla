----------------------------- MODULE NumberText -----------------------------
(***************************************************************************)
(* Numbers as they are written: which byte strings are numbers of a type,   *)
(* and which value they denote.  Integers are kept in canonical decimal     *)
(* text; for floating point numbers RoundsTo decides whether a binary       *)
(* number is the correctly rounded value of a decimal one (exact big number *)
(* arithmetic).                                                             *)
(***************************************************************************)
EXTENDS BigNat

IsDigit(c) == c \in 48..57
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s

Signed(s) == Len(s) > 0 /\ s[1] \in {43, 45}
Unsign(s) == IF Signed(s) THEN Tail(s) ELSE s

(* a <= b for digit strings without leading zeros                            *)
DigLeq(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]}
       IN D = {} \/ LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]

\* bounds of the integer types, as decimal digits
Bound == ("i8" :> [hi |-> <<49,50,55>>, lo |-> <<49,50,56>>]
       @@ "u8" :> [hi |-> <<50,53,53>>, lo |-> <<48>>]
       @@ "i16" :> [hi |-> <<51,50,55,54,55>>, lo |-> <<51,50,55,54,56>>]
       @@ "u16" :> [hi |-> <<54,53,53,51,53>>, lo |-> <<48>>]
       @@ "i32" :> [hi |-> <<50,49,52,55,52,56,51,54,52,55>>, lo |-> <<50,49,52,55,52,56,51,54,52,56>>]
       @@ "u32" :> [hi |-> <<52,50,57,52,57,54,55,50,57,53>>, lo |-> <<48>>]
       @@ "i64" :> [hi |-> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>,
                    lo |-> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>]
       @@ "u64" :> [hi |-> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>, lo |-> <<48>>])
IntTypes == DOMAIN Bound
SignedTypes == {"i8", "i16", "i32", "i64"}

(* "-0" of an unsigned type is left open (see DESIGN.md); it counts as valid here and
   the generators avoid it.                                                  *)
IsInt(ty, s) ==
  LET u == Unsign(s)
      neg == Len(s) > 0 /\ s[1] = 45
      b == Bound[ty]
  IN /\ Len(u) > 0 /\ AllDigits(u)
     /\ LET d == StripZeros(u) IN DigLeq(d, IF neg THEN b.lo ELSE b.hi)

IntValue(s) ==     \* canonical text
  LET d == StripZeros(Unsign(s)) IN IF s[1] = 45 /\ d # <<48>> THEN <<45>> \o d ELSE d

---------------------------------------------------------------------------
(* Decimal floating point:  [+-] (digits [. digits*] | . digits) [e [+-] digits] *)
Pos(s, P(_)) == LET D == {i \in 1..Len(s) : P(s[i])} IN IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j
Split(s) ==        \* integer digits, fraction digits, exponent text, which parts are there
  LET u == Unsign(s)
      e == Pos(u, LAMBDA c : c \in {69, 101})
      mant == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      ex == IF e = 0 THEN <<>> ELSE SubSeq(u, e + 1, Len(u))
      p == Pos(mant, LAMBDA c : c = 46)
  IN [i |-> IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1),
      f |-> IF p = 0 THEN <<>> ELSE SubSeq(mant, p + 1, Len(mant)),
      e |-> ex, hasexp |-> e # 0, neg |-> Len(s) > 0 /\ s[1] = 45]
WellFormedReal(s) ==
  LET t == Split(s) IN
  /\ AllDigits(t.i) /\ AllDigits(t.f) /\ Len(t.i) + Len(t.f) > 0
  /\ t.hasexp => Len(Unsign(t.e)) > 0 /\ AllDigits(Unsign(t.e))

(* digits d (without leading zeros, <<48>> for zero) and exponent k:  d * 10^k.
   Exponents are clamped, far outside the range of the types.                *)
Num(s) == FoldLeft(LAMBDA a, c : IF a > 100000 THEN a ELSE a * 10 + (c - 48), 0, s)
RECURSIVE StripTail(_, _)
StripTail(d, k) == IF Len(d) > 1 /\ d[Len(d)] = 48 THEN StripTail(SubSeq(d, 1, Len(d) - 1), k + 1) ELSE <<d, k>>
Decimal(s) ==
  LET t == Split(s)
      ex == IF t.hasexp THEN (IF t.e[1] = 45 THEN -1 ELSE 1) * Num(Unsign(t.e)) ELSE 0
      dk == StripTail(StripZeros(t.i \o t.f), ex - Len(t.f))
  IN [d |-> dk[1], k |-> dk[2], neg |-> t.neg]
IsZero(x) == x.d = <<48>>
Magnitude(x) == Len(x.d) + x.k          \* 10^(Magnitude-1) <= |x| < 10^Magnitude

---------------------------------------------------------------------------
(* d * 10^k against m * 2^e (m a big natural)                                *)
CmpDec(x, m, e) ==
  LET a == MulPow(MulPow(FromDigits(x.d), 10, IF x.k > 0 THEN x.k ELSE 0), 2, IF e < 0 THEN -e ELSE 0)
      b == MulPow(MulPow(m, 10, IF x.k < 0 THEN -x.k ELSE 0), 2, IF e > 0 THEN e ELSE 0)
  IN Cmp(a, b)

(* Binary formats: precision p, least exponent of the last bit, greatest one. *)
Format == ("float" :> [p |-> 24, emin |-> -149, emax |-> 104, lo |-> -60, hi |-> 60]
        @@ "double" :> [p |-> 53, emin |-> -1074, emax |-> 971, lo |-> -400, hi |-> 400])
One == <<1>>
PowerOf2(n) == MulPow(One, 2, n)

Overflows(ty, x) ==      \* rounds to something beyond the greatest finite number
  LET f == Format[ty] IN
  ~IsZero(x) /\ (\/ Magnitude(x) > f.hi
                 \/ /\ Magnitude(x) >= 30
                    /\ CmpDec(x, SubOne(PowerOf2(f.p + 1)), f.emax - 1) >= 0)

IsReal(ty, s) == WellFormedReal(s) /\ ~Overflows(ty, Decimal(s))

(* v = [neg, m |-> decimal digits, e]: the number  m * 2^e, with e >= emin and
   m < 2^p, m >= 2^(p-1) unless e = emin.  Nearest, ties to even.            *)
RoundsTo(ty, x, v) ==
  LET f == Format[ty]
      m == FromDigits(v.m)
      m2 == MulSmall(m, 2)
      even == m = <<>> \/ m[1] % 2 = 0
      up == CmpDec(x, AddSmall(m2, 1), v.e - 1)
      \* below a power of two the gap is half as wide
      bottom == v.e > f.emin /\ Cmp(m, PowerOf2(f.p - 1)) = 0
      dn == IF bottom THEN CmpDec(x, SubOne(MulSmall(m2, 2)), v.e - 2) ELSE CmpDec(x, SubOne(m2), v.e - 1)
  IN IF IsZero(x) \/ Magnitude(x) < f.lo THEN v.m = <<48>>
     ELSE IF m = <<>> THEN CmpDec(x, One, f.emin - 1) <= 0
     ELSE /\ v.neg = x.neg
          /\ up < 0 \/ (up = 0 /\ even)
          /\ dn > 0 \/ (dn = 0 /\ even)

---------------------------------------------------------------------------
ASSUME IsInt("u8", <<50,53,53>>) /\ ~IsInt("u8", <<50,53,54>>) /\ ~IsInt("u8", <<45,49>>) /\ ~IsInt("u8", <<43>>)
ASSUME IsInt("i8", <<45,48,49,50,56>>) /\ ~IsInt("i8", <<49,50,56>>) /\ IntValue(<<45,48,48,55>>) = <<45,55>>
ASSUME \A s \in {<<49>>, <<46,53>>, <<53,46>>, <<45,49,101,43,49>>} : IsReal("float", s)
ASSUME \A s \in {<<>>, <<46>>, <<101,49>>, <<49,101>>, <<49,101,43>>, <<43>>, <<49,46,50,46>>, <<110,97,110>>} : ~IsReal("float", s)
\* 3.4028235e38 is finite, 3.4028236e38 is not
ASSUME IsReal("float", <<51,46,52,48,50,56,50,51,53,101,51,56>>) /\ ~IsReal("float", <<51,46,52,48,50,56,50,51,54,101,51,56>>)
\* 0.1 as a float is 13421773 * 2^-27
ASSUME RoundsTo("float", Decimal(<<46,49>>), [neg |-> FALSE, m |-> <<49,51,52,50,49,55,55,51>>, e |-> -27])
ASSUME ~RoundsTo("float", Decimal(<<46,49>>), [neg |-> FALSE, m |-> <<49,51,52,50,49,55,55,50>>, e |-> -27])
\* 16777217 is a tie and rounds to 16777216 = 8388608 * 2
ASSUME RoundsTo("float", Decimal(<<49,54,55,55,55,50,49,55>>), [neg |-> FALSE, m |-> <<56,51,56,56,54,48,56>>, e |-> 1])
ASSUME ~RoundsTo("float", Decimal(<<49,54,55,55,55,50,49,55>>), [neg |-> FALSE, m |-> <<56,51,56,56,54,48,57>>, e |-> 1])
=============================================================================
