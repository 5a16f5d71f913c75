------------------------------- MODULE Groth -------------------------------
(* The verification of Groth16 proofs that the program spreads over hundreds   *)
(* of instructions.  All group elements are multiples of the generators, so    *)
(* that the verification equation                                              *)
(*     e(A,B) = e(alpha,beta) + e(L(inputs),gamma) + e(C,delta)                *)
(* is an equation between numbers here, and the specification says which       *)
(* proofs are valid.  Inputs are 32 byte numbers, written in base 256, and     *)
(* numbers are compared digit by digit.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Cases,    \* names of the (sets of) cases
    Slots,    \* verification accounts used at the same time
    Shapes,   \* transactions that compute
    Menu,     \* further actions
    MaxStep
VARIABLES v, steps, act
vars == <<v, steps, act>>
view == <<v, steps>>

-----------------------------------------------------------------------------
(* Keys and the equation *)
Key(k) == CASE k = 1 -> [al |-> 3, be |-> 5, ga |-> 7, de |-> 1, ic |-> <<11, 13, 17>>]
            [] k = 2 -> [al |-> 4, be |-> 9, ga |-> 6, de |-> 2, ic |-> <<19, 5, 23>>]
            [] k = 3 -> [al |-> 2, be |-> 7, ga |-> 3, de |-> 1, ic |-> <<1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43>>]
Inputs(k) == Len(Key(k).ic) - 1

\* an input: digits <<digit, position>>, to which a multiple of the order of the group is added
In(d, l) == [d |-> d, lift |-> l]
N(x) == In(<<<<x, 0>>>>, 0)
Z == In(<<>>, 0)
RECURSIVE Digit(_, _), Sum(_, _, _, _)
Digit(d, j) == IF d = <<>> THEN 0 ELSE (IF d[1][2] = j THEN d[1][1] ELSE 0) + Digit(Tail(d), j)
Sum(ic, ins, n, j) == IF n = 0 THEN 0 ELSE ic[n + 1] * Digit(ins[n].d, j) + Sum(ic, ins, n - 1, j)
At0(j, x) == IF j = 0 THEN x ELSE 0
L(k, ins, j) == At0(j, Key(k).ic[1]) + Sum(Key(k).ic, ins, Inputs(k), j)
Pos == 0..31
Target(k, a, b, ins) == [j \in Pos |-> At0(j, a * b - Key(k).al * Key(k).be) - Key(k).ga * L(k, ins, j)]

\* the proof [a, b, c] with c made for given inputs and key
Prove(k, a, b, ins) ==
    LET t == Target(k, a, b, ins) IN
    IF \A j \in Pos : t[j] % Key(k).de = 0 THEN [a |-> a, b |-> b, c |-> [j \in Pos |-> t[j] \div Key(k).de], bad |-> ""]
    ELSE Assert(FALSE, "there is no such proof in whole numbers")
\* bad points: not on the curve, outside of the subgroup, or b at infinity
Valid(c) == /\ c.p.bad = "" /\ c.p.b # 0
            /\ LET t == Target(c.k, c.p.a, c.p.b, c.ins) IN \A j \in Pos : t[j] = Key(c.k).de * c.p.c[j]

-----------------------------------------------------------------------------
(* Cases: a key, the inputs of the verification account, and the proof *)
C(k, ins, p) == [k |-> k, ins |-> ins, p |-> p]
Good(k, ins, a, b) == C(k, ins, Prove(k, a, b, ins))
Two(x, y) == <<x, y>>
Ones == [i \in 1..14 |-> N(i)]
Dense(i, m) == In([t \in 1..31 |-> <<1 + ((i * 7 + t * m) % 255), t - 1>>], 0)
Base == Two(N(2), N(5))
Std == Good(1, Base, 6, 4)
P1 == Std.p
Windows(js, ds) == {Good(1, Two(In(<<<<d, j>>>>, 0), N(3)), 6, 4) : j \in js, d \in ds}
              \cup {Good(2, Two(N(0), In(<<<<d, j>>>>, 0)), 6, 4) : j \in js, d \in ds}

Set(n) ==
    CASE n = "std" -> {Std}
      [] n = "valid" -> {Std, Good(2, Base, 6, 4), Good(1, Two(N(0), N(0)), 2, 3), Good(2, Two(N(0), N(1)), 4, 3), Good(1, Two(N(255), N(256)), -2, 3),
                         Good(1, Two(N(-1), N(-6)), 5, -1), Good(1, Two(N(1), Z), 1, 1), Good(1, Base, 6, -4), Good(1, Base, -6, -4), Good(1, Base, 1, 15)}
      [] n = "lift" -> {Good(1, Two(In(<<<<x, 0>>>>, l), N(y)), 6, 4) : x \in {0, -1, 3}, l \in 0..5, y \in {0, 9}} \ {Good(1, Two(In(<<<<-1, 0>>>>, 5), N(y)), 6, 4) : y \in {0, 9}}
      [] n = "windows" -> Windows({0, 1, 15, 30, 31}, {1, 2, 254, 255})
      [] n = "windowsall" -> Windows(0..31, {1, 128, 255})
      [] n = "digits" -> {Good(1, Two(In(<<<<d, 0>>, <<256 - d, 1>>, <<d, 7>>, <<(d * 7) % 256, 30>>>>, 0), In(<<<<d, 31>>, <<d, 3>>>>, 0)), 6, 4) : d \in {1, 3, 64, 127, 128, 200, 255}}
      [] n = "dense" -> {Good(1, Two(Dense(1, m), Dense(2, m)), 6, 4) : m \in {1, 3, 5, 16}} \cup {Good(1, Two(Dense(1, 9), Z), 6, 4), Good(1, Two(Z, Dense(1, 9)), 6, 4)}
      [] n = "wrong" -> {C(1, Base, [P1 EXCEPT !.a = 7]), C(1, Base, [P1 EXCEPT !.a = -6]), C(1, Base, [P1 EXCEPT !.b = 5]), C(1, Base, [P1 EXCEPT !.b = -4]),
                         C(1, Base, [P1 EXCEPT !.c[0] = @ + 1]), C(1, Base, [P1 EXCEPT !.c[0] = -@]), C(1, Base, [P1 EXCEPT !.c[31] = 1]),
                         C(1, Base, [P1 EXCEPT !.a = 4, !.b = 6]), C(1, Base, [P1 EXCEPT !.a = 1, !.b = 24]), C(2, Base, P1),
                         C(1, Base, [P1 EXCEPT !.a = P1.c[0], !.c[0] = 6])}
      [] n = "inputs" -> {C(1, Two(x, y), P1) : x \in {N(2), N(3), N(1), N(0), N(258), In(<<<<2, 0>>, <<1, 31>>>>, 0), In(<<<<2, 0>>>>, 1), In(<<<<2, 0>>, <<1, 16>>>>, 0)}, y \in {N(5), N(6), In(<<<<5, 0>>, <<255, 30>>>>, 0)}}
                         \cup {C(1, Two(N(5), N(2)), P1), C(1, Two(N(19), N(-8)), P1)}
      [] n = "shift" -> {C(1, Two(In(<<<<7, i>>>>, 0), N(1)), Prove(1, 6, 4, Two(In(<<<<7, j>>>>, 0), N(1)))) : i \in {0, 1, 15, 31}, j \in {0, 1, 15, 31}}
      [] n = "infinity" -> {Good(1, Base, 0, 4), Good(2, Base, 0, 4), C(1, Base, [P1 EXCEPT !.a = 0]), C(1, Base, [P1 EXCEPT !.c = [j \in Pos |-> 0]]), C(1, Base, [P1 EXCEPT !.b = 0]),
                            C(1, Base, [P1 EXCEPT !.a = 0, !.b = 0, !.c = [j \in Pos |-> 0]]), C(1, Base, [P1 EXCEPT !.a = 0, !.c = [j \in Pos |-> 0]]),
                            \* C at infinity in a valid proof: 15 + 7 (11 + 13 x + 17 y) = a b
                            Good(1, Two(N(0), N(0)), 23, 4), Good(1, Two(N(1), N(0)), 61, 3), Good(1, Two(N(0), N(1)), 211, 1)}
      [] n = "zeroL" -> {Good(1, Two(N(7), N(-6)), 6, 4), Good(1, Two(N(7), N(-6)), 5, 3), C(1, Two(N(7), N(-6)), P1), Good(1, Two(In(<<<<7, 0>>>>, 2), N(-6)), 0, 3)}
      [] n = "points" -> {C(1, Base, [P1 EXCEPT !.bad = x]) : x \in {"aoff", "boff", "coff", "bsub", "alloff", "azero", "bzero", "czero", "axy", "bxy"}}
      [] n = "fourteen" -> {Good(3, Ones, 6, 4), Good(3, [i \in 1..14 |-> Z], 5, 4), Good(3, [i \in 1..14 |-> IF i % 2 = 0 THEN Z ELSE N(-i)], 6, 4),
                            Good(3, [i \in 1..14 |-> IF i = 14 THEN N(200) ELSE Z], 6, 4), Good(3, [i \in 1..14 |-> Dense(i, 1 + i)], 6, 4),
                            C(3, [Ones EXCEPT ![14] = N(15)], Prove(3, 6, 4, Ones)), C(3, [Ones EXCEPT ![1] = N(2)], Prove(3, 6, 4, Ones)),
                            C(3, [Ones EXCEPT ![2] = N(3), ![3] = N(2)], Prove(3, 6, 4, Ones)), C(3, [i \in 1..14 |-> Z], Prove(3, 6, 4, Ones))}
      [] n = "few" -> {Std, C(1, Base, [P1 EXCEPT !.a = 7]), Good(2, Two(Dense(2, 5), Dense(1, 3)), 6, 4)}
      [] n = "few14" -> {Good(3, [i \in 1..14 |-> IF i > 10 THEN N(i) ELSE Dense(i, 1 + i)], 6, 4), C(3, [i \in 1..14 |-> Dense(i, 1 + i)], Prove(3, 6, 4, Ones))}
      [] n = "pairs" -> {Std, C(1, Two(N(3), N(5)), P1), Good(2, Two(Dense(1, 3), N(1)), 6, 4)}
All == UNION {Set(n) : n \in Cases}

Fresh(c) == [c |-> c, good |-> Valid(c), st |-> "None", stage |-> "prep", half |-> FALSE, verdict |-> "none", how |-> <<>>]
Init == /\ v \in [Slots -> {Fresh(c) : c \in All}]
        /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]

Do(a, ok, x, s) ==
    /\ act' = a @@ [x |-> x, ok |-> ok] @@ (IF a.n = "Proof" THEN [c |-> v[x].c] ELSE <<>>)
    /\ v' = IF ok THEN [v EXCEPT ![x] = s] ELSE v
    /\ steps' = IF ok THEN steps + 1 ELSE steps

-----------------------------------------------------------------------------
(* Instructions.  A shape says at which positions of a transaction the computation is: the two costly      *)
(* stages move on only at the seventh instruction, so that all transactions of a verification look alike. *)
Last(sh) == CASE sh = "five" -> TRUE [] sh = "seven" -> TRUE [] sh = "lone" -> TRUE [] sh = "one" -> FALSE [] sh = "early" -> FALSE
Early(sh) == sh # "lone"

Fee(x) == LET s == v[x] IN s.st = "None" /\ Do([n |-> "Fee"], TRUE, x, [s EXCEPT !.st = "Fee"])
Proof(x, by) ==
    LET s == v[x] IN
    Do([n |-> "Proof", by |-> by], s.st = "Fee" /\ s.verdict = "none" /\ by = "payer", x, [s EXCEPT !.st = "Setup"])

Mark(s, m) == [s EXCEPT !.how = Append(@, m)]
Allowed(s) == s.st \in {"None", "Setup"} /\ s.verdict = "none"
\* until the stage is over, or half of it (if that is more than one transaction)
Long(c) == \E n, m \in 1..Len(c.ins) : n # m /\ Len(c.ins[n].d) > 30 /\ Len(c.ins[m].d) > 30
Prep(x, sh, half) ==
    LET s == v[x] IN
    /\ s.stage = "prep" /\ Last(sh) /\ (half => ~s.half /\ Long(s.c))
    /\ Do([n |-> "Prep", sh |-> sh, half |-> half], Allowed(s), x,
          Mark(IF half THEN [s EXCEPT !.half = TRUE] ELSE [s EXCEPT !.half = FALSE, !.stage = "miller"], sh))
Miller(x, sh, half) ==
    LET s == v[x] IN
    /\ s.stage = "miller" /\ (half => ~s.half)
    /\ Do([n |-> "Miller", sh |-> sh, half |-> half], s.st = "Setup", x,
          Mark(IF half THEN [s EXCEPT !.half = TRUE] ELSE [s EXCEPT !.half = FALSE, !.stage = "final"], sh))
Final(x, sh, half) ==
    LET s == v[x] IN
    /\ s.stage = "final" /\ Last(sh) /\ (half => ~s.half)
    /\ Do([n |-> "Final", sh |-> sh, half |-> half], Allowed(s), x,
          Mark(IF half THEN [s EXCEPT !.half = TRUE]
               ELSE [s EXCEPT !.half = FALSE, !.stage = "done", !.verdict = IF s.good THEN "yes" ELSE "no"], sh))
\* nothing happens
Idle(x, sh) ==
    LET s == v[x] IN
    s.stage \in {"prep", "final"} /\ ~Last(sh) /\ Do([n |-> "Idle", sh |-> sh], Allowed(s), x, s)
Over(x, sh) == LET s == v[x] IN s.stage = "done" /\ Do([n |-> "Over", sh |-> sh], FALSE, x, s)
\* another key than the account's, or one that is not set up
Other(x, w) == LET s == v[x] IN Do([n |-> "Other", w |-> w], FALSE, x, s)

Next == /\ steps < MaxStep
        /\ \E x \in Slots :
             \/ Fee(x)
             \/ Proof(x, "payer") \/ ("refuse" \in Menu /\ Proof(x, "stranger"))
             \/ \E sh \in Shapes, half \in {FALSE} \cup (IF "half" \in Menu THEN {TRUE} ELSE {}) : Prep(x, sh, half) \/ Miller(x, sh, half) \/ Final(x, sh, half)
             \/ "refuse" \in Menu /\ \E sh \in Shapes : Idle(x, sh) \/ Over(x, sh)
             \/ "refuse" \in Menu /\ \E w \in {"key", "unset", "data"} : Other(x, w)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Stages == \A x \in Slots : LET s == v[x] IN
    /\ (s.verdict # "none") <=> (s.stage = "done")
    /\ s.stage \in {"final", "done"} => s.st = "Setup"
    /\ s.verdict = "yes" => s.good
Honest == \A x \in Slots : LET s == v[x] IN s.stage = "done" => (s.verdict = "yes" <=> Valid(s.c))
\* a verdict is final, and belongs to the proof and the inputs of its account
Forever == [][ \A x \in Slots : v[x].verdict # "none" => v'[x] = v[x] ]_vars
Alone == [][ Cardinality({x \in Slots : v'[x] # v[x]}) <= 1 ]_vars
RefusedOnly == [][ ~act'.ok => v' = v ]_vars

Obs == [v |-> v, steps |-> steps]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
