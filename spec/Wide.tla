-------------------------------- MODULE Wide --------------------------------
(* Natural numbers of any size (TLC's integers have 32 bits): sequences of digits in base 10000, the lowest first, no leading zeros. *)
(* (Folds, not recursion: TLC evaluates the arguments of a recursive operator again and again.)                                      *)
EXTENDS Integers, Sequences, SequencesExt
BASE == 10000
Trim(x) == LET n == CHOOSE n \in 0..Len(x) : (n = 0 \/ x[n] # 0) /\ \A j \in (n + 1)..Len(x) : x[j] = 0 IN SubSeq(x, 1, n)
W(n) == Trim(<<n % BASE, (n \div BASE) % BASE, n \div (BASE * BASE)>>)      \* 0 <= n < 2^31
Dig(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
Upto(n) == [i \in 1..n |-> i]
Longer(x, y) == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
\* digit by digit: a = <<digits, carry>>
Add(x, y) ==
    LET S(a, i) == LET d == Dig(x, i) + Dig(y, i) + a[2] IN <<Append(a[1], d % BASE), d \div BASE>> IN
    Trim(FoldLeft(S, <<<<>>, 0>>, Upto(Longer(x, y) + 1))[1])
Minus(x, y) ==      \* only for y <= x
    LET S(a, i) == LET d == x[i] - Dig(y, i) - a[2] IN <<Append(a[1], IF d < 0 THEN d + BASE ELSE d), IF d < 0 THEN 1 ELSE 0>> IN
    Trim(FoldLeft(S, <<<<>>, 0>>, Upto(Len(x)))[1])
Less(x, y) ==
    \/ Len(x) < Len(y)
    \/ Len(x) = Len(y) /\ \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in (i + 1)..Len(x) : x[j] = y[j]
Leq(x, y) == ~Less(y, x)
Times(x, d) ==      \* d < BASE
    LET S(a, i) == LET p == Dig(x, i) * d + a[2] IN <<Append(a[1], p % BASE), p \div BASE>> IN
    Trim(FoldLeft(S, <<<<>>, 0>>, Upto(Len(x) + 1))[1])
Shift(x, d) == Trim(<<d>> \o x)
Mul(x, y) == LET S(a, d) == Add(Shift(a, 0), Times(x, d)) IN FoldLeft(S, <<>>, Reverse(y))
Div(x, y) ==        \* y > 0
    LET S(a, d) ==
            LET r == Shift(a[1], d)
                T(q, k) == IF q + k < BASE /\ Leq(Times(y, q + k), r) THEN q + k ELSE q
                q == IF Less(r, y) THEN 0 ELSE FoldLeft(T, 0, <<8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>) IN
            <<Minus(r, Times(y, q)), <<q>> \o a[2]>>
    IN Trim(FoldLeft(S, <<<<>>, <<>>>>, Reverse(x))[2])
Ten(n) == [i \in 1..(n \div 4) |-> 0] \o <<<<1, 10, 100, 1000>>[1 + (n % 4)]>>
U64 == <<1615, 955, 737, 6744, 1844>>     \* 2^64 - 1
I64 == <<5807, 5477, 368, 3372, 922>>     \* 2^63 - 1
=============================================================================
