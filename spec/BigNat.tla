------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Naturals of any size (TLC's integers have 32 bits): limbs of base 10^4,  *)
(* least significant first, no leading zero limb; zero is <<>>.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Base == 10000
MulSmall(a, b) ==        \* 0 < b <= 10^4
  LET step(acc, x) == LET t == x * b + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>
      r == FoldLeft(step, <<<<>>, 0>>, a)
  IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])
AddSmall(a, b) ==        \* 0 <= b < 10^4
  LET step(acc, x) == LET t == x + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>
      r == FoldLeft(step, <<<<>>, b>>, a)
  IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])
SubOne(a) ==             \* a > 0
  LET step(acc, x) == IF acc[2] = 0 THEN <<Append(acc[1], x), 0>>
                      ELSE IF x = 0 THEN <<Append(acc[1], Base - 1), 1>> ELSE <<Append(acc[1], x - 1), 0>>
      r == FoldLeft(step, <<<<>>, 1>>, a)[1]
  IN IF r # <<>> /\ r[Len(r)] = 0 THEN SubSeq(r, 1, Len(r) - 1) ELSE r
RECURSIVE MulPow(_, _, _)
MulPow(a, b, n) == IF n = 0 \/ a = <<>> THEN a
                   ELSE IF b = 2 /\ n >= 13 THEN MulPow(MulSmall(a, 8192), b, n - 13)
                   ELSE IF b = 10 /\ n >= 4 THEN MulPow(MulSmall(a, 10000), b, n - 4)
                   ELSE MulPow(MulSmall(a, b), b, n - 1)
FromDigits(s) == FoldLeft(LAMBDA a, c : AddSmall(MulSmall(a, 10), c - 48), <<>>, s)
Cmp(a, b) ==             \* -1, 0, 1
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET D == {i \in 1..Len(a) : a[i] # b[i]}
       IN IF D = {} THEN 0 ELSE LET i == CHOOSE i \in D : \A j \in D : j <= i IN IF a[i] < b[i] THEN -1 ELSE 1

Trim(a) == LET n == {i \in 1..Len(a) : a[i] # 0}
           IN IF n = {} THEN <<>> ELSE SubSeq(a, 1, CHOOSE i \in n : \A j \in n : j <= i)
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Add(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      step(acc, i) == LET t == Limb(a, i) + Limb(b, i) + acc[2] IN <<Append(acc[1], t % Base), t \div Base>>
      r == FoldLeft(step, <<<<>>, 0>>, [i \in 1..n |-> i])
  IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])
Sub(a, b) ==             \* a >= b
  LET step(acc, i) == LET t == Limb(a, i) - Limb(b, i) - acc[2]
                      IN IF t < 0 THEN <<Append(acc[1], t + Base), 1>> ELSE <<Append(acc[1], t), 0>>
  IN Trim(FoldLeft(step, <<<<>>, 0>>, [i \in 1..Len(a) |-> i])[1])
Mul(a, b) ==
  LET step(acc, i) == \* one limb of b more, from the most significant one
        LET x == b[Len(b) + 1 - i] IN Add(Trim(<<0>> \o acc), IF x = 0 THEN <<>> ELSE MulSmall(a, x))
  IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE FoldLeft(step, <<>>, [i \in 1..Len(b) |-> i])
Leq(a, b) == Cmp(a, b) <= 0
BMax(a, b) == IF Leq(a, b) THEN b ELSE a
BMin(a, b) == IF Leq(a, b) THEN a ELSE b
Nat2Big(n) == FromDigits([i \in 1..Len(ToString(n)) |-> LET p == 10 ^ (Len(ToString(n)) - i) IN 48 + ((n \div p) % 10)])

ASSUME \A a, b \in {0, 1, 9999, 10000, 12345, 40000} :
  /\ Add(Nat2Big(a), Nat2Big(b)) = Nat2Big(a + b)
  /\ Mul(Nat2Big(a), Nat2Big(b % 10007)) = Nat2Big(a * (b % 10007))
  /\ a >= b => Sub(Nat2Big(a), Nat2Big(b)) = Nat2Big(a - b)
  /\ Leq(Nat2Big(a), Nat2Big(b)) <=> a <= b
ASSUME Mul(FromDigits(<<52,50,57,52,57,54,55,50,57,53>>), FromDigits(<<52,50,57,52,57,54,55,50,57,53>>))
     = FromDigits(<<49,56,52,52,54,55,52,52,48,54,53,49,49,57,54,49,55,48,50,53>>)
=============================================================================
