------------------------------ MODULE SortedMap ------------------------------
(* The sorted map of bounded size in which nullifiers are kept: a set of keys,  *)
(* from which an insertion into a full map ousts the largest one.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Size,     \* capacity
    Fill,     \* possible numbers of entries at the start (2, 4, .. 2n)
    Order,    \* the order in which these have been inserted (does not matter)
    MaxStep
VARIABLES m, n0, steps, act
vars == <<m, n0, steps, act>>
view == <<m, n0>>

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x

Init == \E n \in Fill : /\ n0 = n /\ m = {2 * j : j \in 1..n} /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]

Insert(k) ==
    LET a == [n |-> "Insert", k |-> k] IN
    /\ UNCHANGED n0
    /\ IF k \in m THEN act' = a @@ [ok |-> FALSE] /\ UNCHANGED <<m, steps>>
       ELSE IF Cardinality(m) < Size THEN m' = m \cup {k} /\ steps' = steps + 1 /\ act' = a @@ [ok |-> TRUE, out |-> 0]
       ELSE LET top == MaxOf(m \cup {k}) IN
            m' = (m \cup {k}) \ {top} /\ steps' = steps + 1 /\ act' = a @@ [ok |-> TRUE, out |-> top]

Next == steps < MaxStep /\ \E k \in 1..2 * n0 + 1 : Insert(k)
Spec == Init /\ [][Next]_vars

Bounded == Cardinality(m) <= Size
\* the smallest of all that ever were there, and each key is either there or was handed out
Smallest == [][ act'.ok => /\ m' \cup (IF act'.out = 0 THEN {} ELSE {act'.out}) = m \cup {act'.k}
                           /\ act'.out # 0 => \A x \in m' : x < act'.out ]_vars
OustsOnlyIfFull == [][ act'.ok /\ act'.out # 0 => Cardinality(m) = Size /\ Cardinality(m') = Size ]_vars

Obs == [m |-> m, n0 |-> n0]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
