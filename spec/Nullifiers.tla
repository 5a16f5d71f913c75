------------------------------ MODULE Nullifiers ------------------------------
(* The nullifiers of one tree, stored in several accounts, each a sorted map of *)
(* bounded size.  The largest entry of a full map is ousted by an insertion and *)
(* moves on to the next account in a later instruction.                         *)
(* Every account starts with n fillers (regularly spaced keys), so that maps of *)
(* the real size can be described; all other keys are explicit.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Per,      \* entries per account             (65536)
    Accs,     \* accounts                        (16)
    Cap,      \* entries per tree                (2^20)
    Moved,    \* ousted entries that can wait    (4)
    Fulls,    \* accounts that are full (of fillers) at the start
    Part,     \* fillers in the next one
    Menu,     \* keys that are inserted
    Probe,    \* further keys that are looked up
    MaxStep
VARIABLES n, ex, mx, mv, cnt, ins, steps, act
vars == <<n, ex, mx, mv, cnt, ins, steps, act>>
view == <<n, ex, mx, mv, cnt, ins>>

A == 0..Accs - 1
Base(a) == a * 200000
NSeq(a) == IF a < Fulls THEN Per ELSE IF a = Fulls THEN Part ELSE 0
Filler(a, k, m) == k > Base(a) /\ k <= Base(a) + 2 * m[a] /\ k % 2 = 0
In(a, k) == k \in ex[a] \/ Filler(a, k, n)
MvVals == {mv[i][1] : i \in 1..Len(mv)}
Stored(k) == k \in MvVals \/ \E a \in A : In(a, k)
Size(a) == n[a] + Cardinality(ex[a])
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
MinSet(S) == CHOOSE x \in S : \A y \in S : y >= x
MapMax(e, m, a) == MaxSet(e \cup (IF m > 0 THEN {Base(a) + 2 * m} ELSE {}))
MapMin(e, m, a) == MinSet(e \cup (IF m > 0 THEN {Base(a) + 2} ELSE {}))

(* One map *)
Ins(a, k, e, m) ==   \* into the entries (e, m) of account a
    IF k \in e \/ (k > Base(a) /\ k <= Base(a) + 2 * m /\ k % 2 = 0) THEN [ok |-> FALSE, e |-> e, m |-> m, out |-> 0]
    ELSE IF m + Cardinality(e) < Per THEN [ok |-> TRUE, e |-> e \cup {k}, m |-> m, out |-> 0]
    ELSE LET top == MapMax(e, m, a) IN
         IF k > top THEN [ok |-> TRUE, e |-> e, m |-> m, out |-> k]
         ELSE IF top \in e THEN [ok |-> TRUE, e |-> (e \ {top}) \cup {k}, m |-> m, out |-> top]
         ELSE [ok |-> TRUE, e |-> e \cup {k}, m |-> m - 1, out |-> top]

Full == cnt \div Per
AccOf(k) == LET S == {i \in 0..Full - 1 : i < Accs /\ k <= mx[i]} IN IF S = {} THEN Full ELSE MinSet(S)
\* what the program looks at before a spend is admitted
CanInsert(k) == cnt < Cap /\ k \notin MvVals /\ AccOf(k) \in A /\ ~In(AccOf(k), k)

RECURSIVE Desc(_)    \* moved entries, from large to small
Desc(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : z[1] <= y[1] IN <<x>> \o Desc(S \ {x})
Set(s) == {s[i] : i \in 1..Len(s)}


Init ==
    /\ n = [a \in A |-> NSeq(a)] /\ ex = [a \in A |-> {}]
    /\ mx = [a \in A |-> IF NSeq(a) = 0 THEN 0 ELSE Base(a) + 2 * NSeq(a)]
    /\ mv = <<>>
    /\ cnt = Fulls * Per + Part
    /\ ins = {} /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]

No(a) == act' = a /\ UNCHANGED <<n, ex, mx, mv, cnt, ins, steps>>
Insert(k) ==
    LET acc == AccOf(k)
        sw == {i \in 1..Len(mv) : mv[i][2] = acc /\ k < mv[i][1]}
        i == MinSet(sw)
        x == IF sw = {} THEN k ELSE mv[i][1]
        mv1 == IF sw = {} THEN mv ELSE [mv EXCEPT ![i] = <<k, acc>>]
        r == Ins(acc, x, ex[acc], n[acc])
        mv2 == IF r.out = 0 THEN mv1 ELSE Append(mv1, <<r.out, acc + 1>>)
        a == [n |-> "Insert", k |-> k]
    IN
    IF cnt >= Cap \/ k \in MvVals THEN No(a @@ [ok |-> FALSE])
    ELSE IF acc \notin A THEN No(a @@ [ok |-> FALSE])
    ELSE IF ~r.ok \/ Len(mv2) > Moved THEN No(a @@ [ok |-> FALSE])
    ELSE /\ ex' = [ex EXCEPT ![acc] = r.e] /\ n' = [n EXCEPT ![acc] = r.m]
         /\ mx' = [mx EXCEPT ![acc] = MapMax(r.e, r.m, acc)]
         /\ mv' = Desc(Set(mv2))
         /\ cnt' = cnt + 1 /\ ins' = ins \cup {k} /\ steps' = steps + 1
         /\ act' = a @@ [ok |-> TRUE]

\* all entries that wait for the first of the target accounts are inserted there, from large to small
RECURSIVE InsAll(_, _, _, _)
InsAll(a, l, e, m) ==
    IF l = <<>> THEN [ok |-> TRUE, e |-> e, m |-> m, outs |-> <<>>]
    ELSE LET r == Ins(a, l[1][1], e, m) IN
         IF ~r.ok THEN [ok |-> FALSE, e |-> e, m |-> m, outs |-> <<>>]
         ELSE LET q == InsAll(a, Tail(l), r.e, r.m) IN
              [ok |-> q.ok, e |-> q.e, m |-> q.m, outs |-> (IF r.out = 0 THEN <<>> ELSE <<r.out>>) \o q.outs]
Move ==
    LET t == MinSet({mv[i][2] : i \in 1..Len(mv)})
        here == SelectSeq(mv, LAMBDA x : x[2] = t)
        rest == SelectSeq(mv, LAMBDA x : x[2] # t)
        r == InsAll(t, here, ex[t], n[t])
        outs == [i \in 1..Len(r.outs) |-> <<r.outs[i], t + 1>>]
    IN
    IF mv = <<>> THEN No([n |-> "Move", ok |-> FALSE])
    ELSE IF t \notin A THEN No([n |-> "Move", ok |-> FALSE])
    ELSE IF ~r.ok THEN No([n |-> "Move", ok |-> FALSE])
    ELSE /\ ex' = [ex EXCEPT ![t] = r.e] /\ n' = [n EXCEPT ![t] = r.m]
         /\ mx' = [mx EXCEPT ![t] = MapMax(r.e, r.m, t)]
         /\ mv' = Desc(Set(rest) \cup Set(outs))
         /\ UNCHANGED <<cnt, ins>> /\ steps' = steps + 1
         /\ act' = [n |-> "Move", ok |-> TRUE]

\* never more than the tree has accounts for: a step beyond is not taken
Next == steps < MaxStep /\ (Move \/ \E k \in Menu : Insert(k))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
Keys == Menu \cup Probe
FillerAtStart(k) == \E a \in A : k > Base(a) /\ k <= Base(a) + 2 * NSeq(a) /\ k % 2 = 0
\* exactly the inserted ones
Exact == \A k \in Keys \cup MvVals \cup UNION {ex[a] : a \in A} : Stored(k) <=> (k \in ins \/ FillerAtStart(k))
\* once
Once == \A k \in Keys \cup MvVals : Cardinality({a \in A : In(a, k)} \cup (IF k \in MvVals THEN {-1} ELSE {})) <= 1
RECURSIVE Sizes(_)
Sizes(a) == IF a < 0 THEN 0 ELSE Size(a) + Sizes(a - 1)
Count == Sizes(Accs - 1) + Len(mv) = cnt
\* in order over the accounts, once everything has been moved
Sorted == mv = <<>> => \A a \in 0..Accs - 2 : \A b \in a + 1..Accs - 1 : Size(a) > 0 /\ Size(b) > 0 => MapMax(ex[a], n[a], a) < MapMin(ex[b], n[b], b)
Filled == mv = <<>> => \A a \in 0..Accs - 2 : Size(a + 1) > 0 => Size(a) = Per
Maxima == \A a \in A : Size(a) > 0 => mx[a] = MapMax(ex[a], n[a], a)
Bound == \A a \in A : Size(a) <= Per
\* an insertion is refused only for a duplicate, a full tree, or when too many entries wait to be moved
RefusedOnly == [][ act'.n = "Insert" /\ ~act'.ok => Stored(act'.k) \/ cnt >= Cap \/ Len(mv) = Moved ]_vars
\* entries that wait can always be moved on
MoveWorks == [][ act'.n = "Move" /\ ~act'.ok => mv = <<>> ]_vars
\* the look-up before the admission is right
LookUp == cnt < Cap => \A k \in Keys : CanInsert(k) <=> ~Stored(k)
\* (the program reads the maximum of every account that counts as full)
MaxKnown == \A a \in A : a < Full => Size(a) > 0
NothingLost == [][ \A k \in Keys : Stored(k) => Stored(k)' ]_vars

Obs == [n |-> n, ex |-> ex, mx |-> mx, mv |-> mv, cnt |-> cnt, has |-> {k \in Keys : Stored(k)}, not |-> {k \in Keys : ~Stored(k)}, can |-> {k \in Keys : CanInsert(k)}]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
