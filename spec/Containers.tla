----------------------------- MODULE Containers -----------------------------
(* The bounded containers that the program keeps: first-in-first-out queues    *)
(* (commitments, metadata) and windows that remember the last values           *)
(* (commitments, base commitments).  Values are numbers; a queued commitment   *)
(* also has a fee version and a batching rate.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Kind,     \* "cqueue", "mqueue", "cwin", "bwin"
    QCap,     \* entries a queue holds      (239)
    Win,      \* entries a window remembers (128)
    Fill,     \* entries at the start
    Fvs, Rates,   \* fee versions and batching rates of what is enqueued
    MaxBatch, \* rates above are refused at the governor, at most (4)
    MaxStep
VARIABLES l, next, steps, act
vars == <<l, next, steps, act>>
view == <<l, next, steps>>

IsQueue == Kind \in {"cqueue", "mqueue"}
E(v, f, r) == [v |-> v, f |-> f, r |-> r]
Last(s) == s[Len(s)]
Max2(a, b) == IF a > b THEN a ELSE b
Recent(s) == IF Len(s) <= Win THEN s ELSE SubSeq(s, Len(s) - Win + 1, Len(s))
Vals(s) == {s[j].v : j \in 1..Len(s)}

Init == /\ l = [j \in 1..Fill |-> E(j, 0, 0)]
        /\ next = 1001 /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]

Step(a, ok, m) ==
    /\ act' = a @@ [ok |-> ok]
    /\ l' = IF ok THEN m ELSE l
    /\ steps' = IF ok THEN steps + 1 ELSE steps
    /\ next' = IF ok /\ "v" \in DOMAIN a /\ a.v = next THEN next + 1 ELSE next

-----------------------------------------------------------------------------
(* Queues *)
Enq(v, f, r) == Step([n |-> "Enqueue", e |-> E(v, f, r), v |-> v], Len(l) < QCap, Append(l, E(v, f, r)))
Deq == Step([n |-> "Dequeue", out |-> IF l = <<>> THEN 0 ELSE l[1].v], l # <<>>, Tail(l))
Remove(k) == Step([n |-> "Remove", k |-> k], k <= Len(l), SubSeq(l, k + 1, Len(l)))

\* the next commitments to be inserted into the tree together: as many as the highest of their rates asks for
RECURSIVE Upto(_)
Upto(k) == IF k = 0 THEN 0 ELSE Max2(Upto(k - 1), l[k].r)
OneFee(k) == \A j \in 1..k : l[j].f = l[1].f
Closes == {k \in 1..Len(l) : k <= 2 ^ MaxBatch /\ 2 ^ Upto(k) <= k}
BatchLen == CHOOSE k \in Closes : \A j \in Closes : k <= j
Batch == IF Closes = {} \/ ~OneFee(BatchLen) THEN [ok |-> FALSE, len |-> 0, rate |-> 0]
         ELSE [ok |-> TRUE, len |-> BatchLen, rate |-> Upto(BatchLen)]
\* the instructions that process a batch take exactly its entries out
Take == /\ Kind = "cqueue" /\ Step([n |-> "Take"], Batch.ok, SubSeq(l, Batch.len + 1, Len(l)))

QueueNext ==
    \/ \E f \in Fvs, r \in Rates : Enq(next, f, r)
    \/ l # <<>> /\ \E v \in {l[1].v, Last(l).v} : Enq(v, 0, 0)      \* (equal values may wait twice)
    \/ Deq
    \/ \E k \in {0, 1, 2, Len(l) - 1, Len(l), Len(l) + 1, QCap, QCap + 1} : k >= 0 /\ Remove(k)
    \/ Take

-----------------------------------------------------------------------------
(* Windows: l is all that was ever inserted; 0 stands for a value that was released *)
Insert(v) == Step([n |-> "Insert", v |-> v], v \notin Vals(Recent(l)), Append(l, E(v, 0, 0)))
Release(v) ==
    LET at == {j \in 1..Len(l) : j > Len(l) - Win /\ l[j].v = v} IN
    Step([n |-> "Release", r |-> v], at # {}, [j \in 1..Len(l) |-> IF j \in at THEN E(0, 0, 0) ELSE l[j]])
Interesting ==
    {next} \cup (IF l = <<>> THEN {} ELSE
      {l[j].v : j \in {1, 2, Len(l) - 1, Len(l), Len(l) - Win, Len(l) - Win + 1, Len(l) - Win + 2, Len(l) - Win \div 2} \cap 1..Len(l)} \ {0})
WinNext == \E v \in Interesting : Insert(v) \/ (Kind = "cwin" /\ Release(v))

Next == steps < MaxStep /\ IF IsQueue THEN QueueNext ELSE WinNext
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Bounded == IsQueue => Len(l) <= QCap
\* a window never holds a value twice
Distinct == ~IsQueue => LET w == Recent(l) IN Cardinality(Vals(w) \ {0}) = Cardinality({j \in 1..Len(w) : w[j].v # 0})
\* first in, first out
Fifo == [][ IsQueue => \/ l' = l
                       \/ Len(l') = Len(l) + 1 /\ SubSeq(l', 1, Len(l)) = l
                       \/ \E k \in 1..Len(l) : l' = SubSeq(l, k + 1, Len(l)) ]_vars
\* a batch has 2^rate entries, its rate is the highest asked for by its entries, and it pays one fee
BatchRight == Kind = "cqueue" /\ Batch.ok =>
    Batch.len = 2 ^ Batch.rate /\ Batch.rate = Upto(Batch.len) /\ OneFee(Batch.len)
RefusedOnly == [][ ~act'.ok => l' = l ]_vars

Obs == [l |-> LET w == IF IsQueue THEN l ELSE Recent(l) IN [j \in 1..Len(w) |-> <<w[j].v, w[j].f, w[j].r>>], steps |-> steps, batch |-> IF Kind = "cqueue" THEN Batch ELSE [ok |-> FALSE]]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
