-------------------------------- MODULE Fees --------------------------------
(* The amounts of fees at and beyond the limits of the 64 bit arithmetic: storing, spending, settling and fee schedules.   *)
(* Every transition is one case: it starts in the same world, with the schedule, prices and amounts that it names.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Wide
CONSTANTS Menu, Seeds
VARIABLES s, act
vars == <<s, act>>
view == <<s>>

(* -- Partial amounts: Bad or a number of 64 bits -- *)
Bad == [ok |-> FALSE, v |-> <<>>]
N(x) == IF Leq(x, U64) THEN [ok |-> TRUE, v |-> x] ELSE Bad
Plus(a, b) == IF a.ok /\ b.ok THEN N(Add(a.v, b.v)) ELSE Bad
Sub(a, b) == IF a.ok /\ b.ok /\ Leq(b.v, a.v) THEN N(Minus(a.v, b.v)) ELSE Bad
CeilDiv(x, y) == Div(Add(x, Minus(y, <<1>>)), y)

(* -- Prices: mantissa, sign, confidence, exponent, whether the price is current.  Pyth's arithmetic keeps 28 bits -- *)
P(m, neg, c, e) == [m |-> m, neg |-> neg, c |-> c, e |-> e, live |-> TRUE]
Max28 == W(268435455)
Norm(p) ==
    LET S(a, i) == IF Leq(a.m, Max28) /\ Leq(a.c, Max28) THEN a ELSE [a EXCEPT !.m = Div(@, <<10>>), !.c = Div(@, <<10>>), !.e = @ + 1]
    IN FoldLeft(S, p, Upto(20))
MulP(p, q) ==
    LET a == Norm(p) b == Norm(q) IN
    P(Mul(a.m, b.m), a.neg # b.neg, Add(Mul(a.c, b.m), Mul(b.c, a.m)), a.e + b.e)
E9 == Ten(9)
NoPrice == [m |-> <<>>, neg |-> FALSE, c |-> <<>>, e |-> 0, live |-> FALSE]
DivP(p, q) ==
    LET a == Norm(p) b == Norm(q) IN
    IF b.m = <<>> THEN NoPrice
    ELSE LET mid == Div(Mul(a.m, E9), b.m)
             pct == Div(Mul(b.c, E9), b.m)
             conf == Add(Div(Mul(a.c, E9), b.m), Div(Mul(pct, mid), E9)) IN
         IF Less(conf, U64) THEN P(mid, a.neg # b.neg, conf, a.e - b.e - 9) ELSE NoPrice
Cap(n) == IF n > 40 THEN 40 ELSE n
\* with the given exponent
Scale(p, e) ==
    LET d == e - p.e IN
    IF ~p.live THEN p
    ELSE IF d >= 0 THEN [p EXCEPT !.m = Div(@, Ten(Cap(d))), !.c = Div(@, Ten(Cap(d))), !.e = e]
    ELSE LET m == Mul(p.m, Ten(Cap(-d))) c == Mul(p.c, Ten(Cap(-d))) IN
         IF Leq(m, I64) /\ Leq(c, U64) THEN [p EXCEPT !.m = m, !.c = c, !.e = e] ELSE NoPrice

(* -- Tokens: 0 is lamports -- *)
\* SOL, USDC, USDT, mSOL, BONK, SAMO, stSOL, ORCA, RAY, PYTH, JitoSOL, JTO
Tokens == 0..11
Decimals(t) == IF t \in Tokens THEN <<0, 6, 6, 9, 5, 9, 9, 6, 6, 6, 9, 9>>[t + 1] ELSE 0
MinOf(t) == IF t \in Tokens THEN W(<<1000, 1000, 1000, 1000, 1000000000, 100000000, 1000, 10000, 1000000, 2000, 1000, 1000000>>[t + 1]) ELSE <<>>
MaxOf(t) ==
    IF t \in Tokens
    THEN LET m == <<<<36, 10>>, <<8, 9>>, <<8, 9>>, <<36, 10>>, <<2, 15>>, <<2, 15>>, <<36, 10>>, <<15, 9>>, <<5, 10>>, <<16, 9>>, <<36, 10>>, <<2, 12>>>>[t + 1]
         IN Mul(W(m[1]), Ten(m[2]))
    ELSE <<>>
Fresh(t, sol, usd) == t = 0 \/ (sol.live /\ usd.live)
\* lamports in the token
Conv(l, t, sol, usd) ==
    IF ~l.ok \/ t = 0 THEN l
    ELSE IF Less(I64, l.v) THEN Bad
    ELSE LET q == Scale(DivP(MulP(MulP(sol, P(<<1>>, FALSE, <<>>, -9)), P(l.v, FALSE, <<>>, 0)), MulP(usd, P(<<1>>, FALSE, <<>>, 0))), -Decimals(t)) IN
         IF q.live /\ ~(q.neg /\ q.m # <<>>) THEN N(q.m) ELSE Bad

(* -- The fee schedule: lamports per transaction, fees in basis points of deposits and spends, subventions, rewards -- *)
Ix == <<24, 24, 25, 29, 37>>           \* instructions of a batch of 2^rate commitments
Batch(r) == W(2 ^ r)
Comp(f) == N(Add(f.lpt, f.hrew))
BaseFee(f) == IF Comp(f).ok THEN Plus(N(Times(Comp(f).v, 2)), N(f.lpt)) ELSE Bad
HashFee(f, r) ==
    IF ~Comp(f).ok THEN Bad ELSE LET x == Times(Comp(f).v, Ix[r + 1]) IN IF Leq(x, U64) THEN N(CeilDiv(x, Batch(r))) ELSE Bad
Cut(bp, amt) == N(LET x == Mul(bp, amt) IN IF x = <<>> THEN x ELSE Tail(x))      \* basis points of an amount
ProofFee(f, n) == Plus(N(Times(f.lpt, n + 62)), N(f.prew))
Zero == N(<<>>)
Valid(f, txs) ==
    \A r \in 0..4 : /\ HashFee(f, r).ok /\ Leq(f.sub, HashFee(f, r).v)
                    /\ LET x == Plus(N(Times(f.lpt, 62)), HashFee(f, r)) IN x.ok /\ Leq(f.psub, x.v)
                    /\ txs = 62

(* -- Money -- *)
E18 == Ten(18)
Wealth == [sender |-> <<Times(E18, 9), Times(E18, 9)>>, payer |-> <<Times(E18, 4), <<>>>>, pool |-> <<Ten(12), Ten(12)>>,
           coll |-> <<Times(E18, 4), Times(E18, 4)>>, rcp |-> <<Ten(9), <<>>>>, opt |-> <<Ten(9), <<>>>>]
Rich == [Wealth EXCEPT !.pool = <<Mul(W(17), E18), Mul(W(17), E18)>>, !.payer = <<Ten(9), <<>>>>, !.coll = <<Ten(9), Ten(9)>>]
\* moves <<from, to, unit, amount>>: the accounts afterwards, <<>> if one of them cannot be done
\* (the program's own accounts keep the lamports for their rent)
RentPda == W(904800)
Keeps(x, m) == m[3] = 1 \/ m[1] \notin {"pool", "coll"} \/ ~Less(x, Add(m[4].v, RentPda))
Pay(b0, mv) ==
    LET S(l, m) ==
            IF l = <<>> \/ ~m[4].ok THEN <<>>
            ELSE LET b == l[1] u == m[3] + 1 IN
                 IF Less(b[m[1]][u], m[4].v) \/ ~Keeps(b[m[1]][u], m) THEN <<>>
                 ELSE LET c == [b EXCEPT ![m[1]][u] = Minus(@, m[4].v)] x == Add(c[m[2]][u], m[4].v) IN
                      IF Less(U64, x) THEN <<>> ELSE <<[c EXCEPT ![m[2]][u] = x]>>
    IN FoldLeft(S, <<b0>>, mv)
Can(b, mv) == Pay(b, mv) # <<>>
Flat(mv) == [i \in 1..Len(mv) |-> <<mv[i][1], mv[i][2], mv[i][3], mv[i][4].v>>]
Unit(t) == IF t = 0 THEN 0 ELSE 1

Nothing == [k |-> "none", mv |-> <<>>, kept |-> <<>>]
Do(a, ok0, t) == \E ok \in {ok0} : act' = a @@ [ok |-> ok] /\ s' = IF ok THEN t ELSE s

(* -- Storing an amount -- *)
Deposit(v, f, r, t, amt, sol, usd) ==
    \E sub \in {Conv(N(f.sub), t, sol, usd)} : \E comp \in {Plus(BaseFee(f), HashFee(f, r))} :
    \E compt \in {Conv(comp, t, sol, usd)}, net \in {Cut(f.bp, amt)} :
    LET u == Unit(t)
        mv == << <<"sender", "payer", u, Sub(compt, sub)>>, <<"payer", "pool", 0, comp>>, <<"sender", "coll", u, net>>,
                 <<"sender", "pool", u, N(amt)>>, <<"coll", "payer", u, sub>> >>
        ok == t <= 11 /\ Leq(MinOf(t), amt) /\ Leq(amt, MaxOf(t)) /\ Fresh(t, sol, usd) /\ Can(Wealth, mv)
    IN Do([n |-> "Deposit", v |-> v, f |-> f, rate |-> r, tok |-> t, amt |-> amt, sol |-> sol, usd |-> usd], ok,
          [k |-> "deposit", mv |-> Flat(mv), kept |-> <<>>])

(* -- The fee of a spend.  n: instructions to prepare its public inputs; d: fee offered, relative to the one due -- *)
RentAta == W(2039280)
RentSys == W(890880)
Offer(due, d) ==
    CASE d = "exact" -> due.v [] d = "less" -> (IF due.v = <<>> THEN <<>> ELSE Minus(due.v, <<1>>)) [] d = "more" -> Add(due.v, <<1>>)
      [] d = "none" -> <<>> [] d = "all" -> U64
Fee(v, f, r, n, t, amt, d, ata, opt, sol, usd) ==
    \E hash \in {HashFee(f, r)}, sub \in {Conv(N(f.psub), t, sol, usd)}, proof \in {Conv(ProofFee(f, n), t, sol, usd)}, net \in {Cut(f.nbp, amt)} :
    \E hasht \in {Conv(hash, t, sol, usd)}, rent \in {IF ata THEN Conv(N(RentAta), t, sol, usd) ELSE Zero} :
    \E due \in {Sub(Plus(Plus(hasht, proof), net), sub)} :
    \E given \in {IF due.ok THEN Offer(due, d) ELSE Offer(Zero, d)} :
    LET least == Plus(rent, N(opt))
        mv == << <<"payer", "pool", 0, Plus(hash, IF ata THEN N(RentAta) ELSE Zero)>>, <<"coll", "pool", Unit(t), sub>> >>
        ok == /\ Fresh(t, sol, usd) /\ due.ok /\ Leq(due.v, given)
              /\ ~(ata /\ t = 0)
              /\ (t = 0 /\ amt # <<>> => Leq(RentSys, amt))
              /\ (ata => least.ok /\ Leq(least.v, amt))
              /\ Can(Wealth, mv)
    IN /\ Leq(given, U64)
       /\ Do([n |-> "Fee", v |-> v, f |-> f, rate |-> r, cnt |-> n, tok |-> t, amt |-> amt, fee |-> given, d |-> d, ata |-> ata, opt |-> opt, sol |-> sol, usd |-> usd], ok,
             [k |-> "fee", mv |-> Flat(mv),
              kept |-> <<sub.v, net.v, hash.v, hasht.v, proof.v, rent.v>>])

(* -- Settling: what was fixed before.  x: subvention, network fee, hash fee (lamports), hash fee, proof fee (token), rent -- *)
Settle(v, good, t, amt, opt, x) ==
    LET u == Unit(t)
        mv == IF good
              THEN (IF amt = <<>> THEN <<>> ELSE << <<"pool", "rcp", u, Sub(N(amt), N(opt))>>, <<"pool", "opt", u, N(opt)>> >>)
                   \o << <<"pool", "payer", u, Plus(N(x[4]), N(x[5]))>>, <<"pool", "coll", u, N(x[2])>> >>
              ELSE << <<"pool", "coll", u, N(x[1])>>, <<"pool", "coll", 0, N(x[3])>> >>
    IN Do([n |-> "Settle", v |-> v, good |-> good, tok |-> t, amt |-> amt, opt |-> opt, x |-> x], Can(Rich, mv),
          [k |-> "settle", mv |-> Flat(mv), kept |-> <<>>])

(* -- A new fee schedule -- *)
Version(v, f, txs) ==
    Do([n |-> "Version", v |-> v, f |-> f, txs |-> txs], Valid(f, txs),
       [k |-> "version", mv |-> <<>>, kept |-> <<f.lpt, f.bp, f.nbp, f.sub, f.psub, f.hrew, f.prew>>])

-----------------------------------------------------------------------------
(* The cases *)
Std == [lpt |-> W(5000), bp |-> W(75), nbp |-> W(100), sub |-> W(10000), psub |-> W(20000), hrew |-> W(400), prew |-> W(900)]
Up(x) == Add(x, <<1>>)
Down(x) == Minus(x, <<1>>)
Near(x) == {x, Up(x)} \cup (IF x = <<>> THEN {} ELSE {Down(x)})
Q(k) == Div(U64, W(k))          \* the largest x with k * x representable
NearU(x) == {y \in Near(x) : Leq(y, U64)}
None == [lpt |-> <<>>, bp |-> <<>>, nbp |-> <<>>, sub |-> <<>>, psub |-> <<>>, hrew |-> <<>>, prew |-> <<>>]
\* the values at which the formulas stop fitting
LptEdges == UNION {NearU(Q(k)) : k \in {1, 2, 3, 24, 25, 27, 28, 29, 32, 37, 62, 63, 72, 99}} \cup {<<>>, W(1), W(5000)}
Schedules ==
    {[None EXCEPT !.lpt = x] : x \in LptEdges}
    \cup {[Std EXCEPT !.hrew = x] : x \in {Minus(U64, W(5000)), Minus(U64, W(4999)), U64} \cup UNION {NearU(Minus(Q(k), W(5000))) : k \in {2, 24, 25, 29, 37}}}
    \cup {[None EXCEPT !.hrew = x] : x \in UNION {NearU(Q(k)) : k \in {2, 24, 25, 26, 29, 37}}}
    \cup {[Std EXCEPT !.bp = x, !.nbp = x] : x \in {<<>>, W(1), W(9999), W(10000), W(10001), U64, Q(2), Ten(9), Ten(12), Ten(15), Ten(18)}}
    \cup {[Std EXCEPT !.prew = x] : x \in {<<>>, Minus(U64, W(310000)), Minus(U64, W(330000)), Minus(U64, W(315000)), Up(Minus(U64, W(315000))), U64, Minus(U64, W(444600)), I64, Up(I64)}}
    \cup {[Std EXCEPT !.sub = x] : x \in {<<>>, W(145399), W(145400), W(145401), W(28288), W(28287), W(28289), U64, I64, Up(I64)}}
    \cup {[Std EXCEPT !.psub = x] : x \in {<<>>, U64, I64, Up(I64), W(445500), W(445501), W(445499)}}
    \cup {Std}
Amounts(t) == {MinOf(t), MaxOf(t), Add(MinOf(t), W(123457))}
Dollar == P(W(1000000), FALSE, <<>>, -6)
Sol20 == P(W(20), FALSE, <<>>, 0)
Real == <<P(<<5678, 2345, 39>>, FALSE, W(1234567), -8), P(<<7654, 9998>>, FALSE, W(54321), -8)>>
Prices ==
    LET m == {W(1), W(7), W(99999), W(268435455), W(268435456), W(2147483647), E18, I64} IN
    {<<P(x, FALSE, <<>>, -8), Dollar>> : x \in m} \cup {<<Sol20, P(x, FALSE, <<>>, -8)>> : x \in m}
    \cup {<<P(x, FALSE, W(3), -4), P(Up(W(2)), FALSE, W(1), -2)>> : x \in m}
    \cup {Real, <<Sol20, Dollar>>}
    \cup {<<P(<<>>, FALSE, <<>>, 0), Dollar>>, <<Sol20, P(<<>>, FALSE, <<>>, 0)>>, <<P(W(20), TRUE, <<>>, 0), Dollar>>, <<Sol20, P(W(1), TRUE, <<>>, 0)>>,
          <<P(W(20), TRUE, <<>>, 0), P(W(1), TRUE, <<>>, 0)>>, <<[Sol20 EXCEPT !.live = FALSE], Dollar>>, <<Sol20, [Dollar EXCEPT !.live = FALSE]>>}
    \cup {<<P(W(20), FALSE, c, 0), Dollar>> : c \in {W(1), W(20), Max28, Up(Max28), Ten(12), U64}}
    \cup {<<Sol20, P(W(1000000), FALSE, c, -6)>> : c \in {W(1), W(1000000), Max28, Up(Max28), Ten(12), U64}}
    \cup {<<P(W(20), FALSE, <<>>, e), Dollar>> : e \in {-30, -20, -12, -3, 3, 6, 9, 10, 12, 20, 30}}
    \cup {<<Sol20, P(W(1), FALSE, <<>>, e)>> : e \in {-30, -20, -12, -3, 3, 6, 9, 10, 12, 20, 30}}
Few == {Std, [Std EXCEPT !.lpt = Ten(9)], [Std EXCEPT !.hrew = Ten(15)], [Std EXCEPT !.prew = Ten(18), !.psub = W(1)]}
Settles ==
    LET h == <<W(11), W(13), W(17), W(19), W(23), <<>>>> IN
    {h} \cup {[h EXCEPT ![i] = x] : i \in 1..5, x \in {<<>>, Ten(18), I64, Up(I64), U64, Mul(W(17), E18), Up(Mul(W(17), E18)), Minus(Mul(W(17), E18), RentPda), Up(Minus(Mul(W(17), E18), RentPda))}}
    \cup {[h EXCEPT ![4] = x, ![5] = Minus(U64, x)] : x \in {W(1), I64, Ten(10)}}
    \cup {[h EXCEPT ![4] = x, ![5] = Up(Minus(U64, x))] : x \in {W(1), I64, Ten(10), U64}}
    \cup {[h EXCEPT ![4] = x, ![5] = Minus(Mul(W(16), E18), x)] : x \in {W(1), I64, Ten(10)}}

(* pseudo-random cases *)
R(n, j) == LET a == (n * 7919 + j * 9973 + 12345) % 65537
               b == (a * 75 + 74 + j) % 65537
               c == (b * 171 + 11213) % 53125
               d == (c * 75 + n + j) % 65537 IN (b + 3 * c + d) % 65536
RW(n, j) ==      \* any 64 bit number, of any size
    LET k == R(n, j) % 6 IN
    Trim([i \in 1..k |-> LET x == R(n, j + 10 * i) % BASE IN IF i = 5 THEN x % 1844 ELSE x])
RS(n, j) == LET k == R(n, j) % 3 IN Trim([i \in 1..k |-> R(n, j + 10 * i) % BASE])
RPrice(n, j) == LET big == R(n, j) % 3 m == IF big = 0 THEN Div(RW(n, j + 1), <<2>>) ELSE Up(RS(n, j + 1)) IN
    P(m, FALSE, IF R(n, j + 2) % 2 = 0 THEN <<>> ELSE IF R(n, j + 2) % 8 = 1 THEN RW(n, j + 3) ELSE Div(m, W(1 + (R(n, j + 3) % 1000))), (R(n, j + 4) % (IF big = 1 THEN 30 ELSE 12)) - (IF big = 1 THEN 20 ELSE 10))
RSched(n) == LET F(j) == IF R(n, j) % 4 = 0 THEN RW(n, j + 100) ELSE RS(n, j + 100) IN
    [lpt |-> F(1), bp |-> F(2), nbp |-> F(3), sub |-> IF R(n, 4) % 2 = 0 THEN <<>> ELSE F(4), psub |-> IF R(n, 5) % 2 = 0 THEN <<>> ELSE F(5), hrew |-> F(6), prew |-> F(7)]
RTok(n) == LET x == R(n, 50) % 16 IN IF x > 11 THEN 0 ELSE x
RAmt(n, t) == LET x == RW(n, 60) IN IF Leq(MinOf(t), x) /\ Leq(x, MaxOf(t)) THEN x ELSE IF R(n, 61) % 2 = 0 THEN Add(MinOf(t), RS(n, 62)) ELSE Minus(MaxOf(t), RS(n, 63))

Next ==
    /\ s.k = "none"
    /\ \/ "native" \in Menu /\ \E f \in Schedules, r \in 0..4, amt \in Amounts(0) : Deposit("native", f, r, 0, amt, Sol20, Dollar)
       \/ "amount" \in Menu /\ \E t \in 0..13 : \E amt \in {<<>>, W(1), I64, U64} \cup Near(MinOf(t)) \cup Near(MaxOf(t)) :
              Deposit("amount", Std, 0, t, amt, Sol20, Dollar)
       \/ "tokens" \in Menu /\ \E p \in Prices, t \in {1, 3, 4}, f \in Few : Deposit("token", f, 1, t, MaxOf(t), p[1], p[2])
       \/ "tsched" \in Menu /\ \E p \in {Real, <<Sol20, Dollar>>, <<Sol20, P(W(1), FALSE, <<>>, 12)>>}, f \in Schedules : Deposit("tsched", f, 2, 1, MinOf(1), p[1], p[2])
       \/ "fee" \in Menu /\ \E f \in Schedules, r \in {0, 4}, n \in {1, 37}, d \in {"exact", "less", "none"} : Fee("native", f, r, n, 0, Ten(7), d, FALSE, <<>>, Sol20, Dollar)
       \/ "feeamt" \in Menu /\ \E f \in {Std, [Std EXCEPT !.nbp = Ten(4)], [Std EXCEPT !.nbp = W(9999)], [Std EXCEPT !.nbp = U64]}, d \in {"exact", "less", "more", "all"} :
              \E amt \in {<<>>, W(1), U64, I64, Ten(12)} \cup Near(RentSys) : Fee("amount", f, 1, 20, 0, amt, d, FALSE, <<>>, Sol20, Dollar)
       \/ "feetok" \in Menu /\ \E p \in Prices, t \in {1, 3, 4}, f \in Few, d \in {"exact", "less"} : Fee("token", f, 1, 20, t, W(123456789), d, FALSE, <<>>, p[1], p[2])
       \/ "feeata" \in Menu /\ \E p \in Prices, opt \in {<<>>, W(5), U64} :
              \E amt \in {<<>>, U64} \cup UNION {NearU(Plus(Conv(N(RentAta), 1, p[1], p[2]), x).v) : x \in {Zero, N(W(5))}} :
              Fee("ata", Std, 0, 20, 1, amt, "exact", TRUE, opt, p[1], p[2])
       \/ "feeata" \in Menu /\ \E amt \in {Ten(7), U64} : Fee("ata0", Std, 0, 20, 0, amt, "exact", TRUE, <<>>, Sol20, Dollar)
       \/ "settle" \in Menu /\ \E good \in BOOLEAN, t \in {0, 1}, x \in Settles : Settle("kept", good, t, W(3000000), W(7), x)
       \/ "settle" \in Menu /\ \E t \in {0, 1}, amt \in {<<>>, W(7), W(8), I64, Ten(18), Mul(W(17), E18), U64}, opt \in {<<>>, W(7), Ten(18)} :
              Leq(opt, amt) /\ Settle("amt", TRUE, t, amt, opt, <<W(11), W(13), W(17), W(19), W(23), <<>>>>)
       \/ "version" \in Menu /\ \E f \in Schedules : Version("", f, 62)
       \/ "version" \in Menu /\ \E x \in {12487, 12488, 12489}, y \in {0, 322488, 322489} : Version("edge", [Std EXCEPT !.sub = W(x), !.psub = W(y)], 62)
       \/ "version" \in Menu /\ \E txs \in {0, 61, 62, 63, 100000} : Version("txs", Std, txs)
       \/ "random" \in Menu /\ \E n \in Seeds :
              \E t \in {RTok(n)}, f \in {RSched(n)}, sol \in {RPrice(n, 200)}, usd \in {RPrice(n, 300)} :
              \/ Deposit("random", f, R(n, 70) % 5, t, RAmt(n, t), sol, usd)
              \/ Fee("random", f, R(n, 70) % 5, 1 + (R(n, 71) % 64), t, RW(n, 60), <<"exact", "less", "more", "all">>[1 + (R(n, 72) % 4)],
                     t # 0 /\ R(n, 73) % 3 = 0, RS(n, 74), sol, usd)
              \/ Version("random", f, 62)
Init == s = Nothing /\ act = [n |-> "Start", ok |-> TRUE]
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
\* the sum that an account gives
From(mv, who, u) == LET S(a, m) == IF m[1] = who /\ m[3] = u THEN Add(a, m[4]) ELSE a IN FoldLeft(S, <<>>, mv)
\* rounded up, by less than one unit: x is the least integer with x * y >= z
Ceil(x, y, z) == Leq(z, Mul(x, y)) /\ Less(Mul(x, y), Add(z, y))
Floor(x, y, z) == Leq(Mul(x, y), z) /\ Less(z, Add(Mul(x, y), y))
\* P20, and P03: what the pool receives for the computations of a batch covers what it pays for them
Covered ==
    [][(act'.n = "Deposit" /\ act'.ok) =>
        LET f == act'.f c == Add(f.lpt, f.hrew) fees == s'.mv[2][4] y == Batch(act'.rate) IN
        /\ Ceil(Minus(fees, Add(Times(c, 2), f.lpt)), y, Times(c, Ix[act'.rate + 1]))
        /\ Floor(s'.mv[3][4], W(10000), Mul(f.bp, act'.amt))
        /\ s'.mv[4][4] = act'.amt]_vars
\* what the user pays: nothing is charged for twice, and the subvention is what the collector contributes
Charged ==
    [][(act'.n = "Deposit" /\ act'.ok /\ act'.tok = 0) =>
        From(s'.mv, "sender", 0) = Minus(Add(Add(act'.amt, s'.mv[2][4]), s'.mv[3][4]), act'.f.sub)]_vars
\* the fee offered covers what the spend will take from the pool
FeeCovers ==
    [][(act'.n = "Fee" /\ act'.ok) => LET k == s'.kept IN Leq(Minus(Add(Add(k[4], k[5]), k[2]), k[1]), act'.fee)]_vars
\* a conversion is the real quotient up to the precision of Pyth's arithmetic, one unit in 10^7 (three truncations to 28 bits)
Accurate(l, x, t, sol, usd) ==
    (sol.c = <<>> /\ usd.c = <<>> /\ sol.e \in -12..12 /\ usd.e \in -12..12) =>
    LET L == Mul(Mul(l, sol.m), Ten(Decimals(t) + sol.e + 12))       \* l * sol / 10^9 in units of the token, times 10^(12 + 9 + ...)
        T == Mul(Mul(x, usd.m), Ten(9 + usd.e + 12))
        one == Mul(usd.m, Ten(9 + usd.e + 12))
        tol == Add(Add(Div(L, Ten(6)), one), one) IN
    /\ Leq(T, Add(L, tol)) /\ Leq(L, Add(T, tol))
Close ==
    [][(act'.ok /\ act'.n = "Fee" /\ act'.tok # 0) => Accurate(s'.kept[3], s'.kept[4], act'.tok, act'.sol, act'.usd)]_vars
SettleExact ==
    [][(act'.n = "Settle" /\ act'.ok /\ act'.good) =>
        From(s'.mv, "pool", Unit(act'.tok)) = Add(Add(act'.amt, Add(act'.x[4], act'.x[5])), act'.x[2])]_vars
Obs == s
Dump == PrintT("@E " \o ToJson([f |-> s, a |-> act', t |-> s']))
=============================================================================
