------------------------------- MODULE Setup -------------------------------
(* Opening the program's own accounts, and binding data accounts to them.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS
    Start,    \* what is opened at first: none, single, all
    Menu,
    Parents, Slots, Accts,  \* binding: "storage", "metadata", "null0", "null1"; "0", "1", "top", ...; data accounts
    Versions, Schedules, Trees, Vars,
    MaxStep
VARIABLES o, slot, used, env, mptr, net, steps, act
vars == <<o, slot, used, env, mptr, net, steps, act>>
view == <<o, slot, used, env, mptr, net, steps>>

\* opened: the single accounts, governor, later accounts; fee versions (their schedule, 0: not opened), nullifier trees
Nothing == [single |-> FALSE, gov |-> FALSE, v1 |-> FALSE, fee |-> [v \in Versions |-> 0], nulls |-> {}, gfee |-> 0]
Everything == [single |-> TRUE, gov |-> TRUE, v1 |-> TRUE, fee |-> [v \in Versions |-> IF v = 0 THEN 1 ELSE 0], nulls |-> {0, 1}, gfee |-> 1]
Init == /\ o = CASE Start = "none" -> Nothing
                 [] Start = "single" -> [Nothing EXCEPT !.single = TRUE, !.gov = TRUE]
                 [] Start = "all" -> Everything
        /\ slot = [p \in Parents |-> [s \in Slots |-> ""]]
        /\ used = {"sused", "nused", "mused"} \cap Accts
        /\ env = [queued |-> FALSE, hashing |-> FALSE, ver |-> 0, ptr |-> 0]
        /\ mptr = 0 /\ net = {}
        /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]

\* the payer pays for what is opened (net: what it has paid for)
Do(a, ok, o1, slot1, used1, mptr1) ==
    /\ act' = a @@ [ok |-> ok]
    /\ o' = IF ok THEN o1 ELSE o
    /\ slot' = IF ok THEN slot1 ELSE slot
    /\ used' = IF ok THEN used1 ELSE used
    /\ mptr' = IF ok THEN mptr1 ELSE mptr
    /\ steps' = IF ok THEN steps + 1 ELSE steps
    /\ UNCHANGED env
Pays(ok, x) == net' = IF ok THEN net \cup x ELSE net

-----------------------------------------------------------------------------
\* v: "good", or somebody else's account in one of the places ("other"), two of them swapped, not signed by the payer, a payer
\* without the money
Single(v) ==
    LET ok == ~o.single /\ v = "good" IN
    Do([n |-> "Single", v |-> v], ok, [o EXCEPT !.single = TRUE], slot, used, mptr) /\ Pays(ok, {"single"})
Governor(v) ==
    LET ok == ~o.gov /\ v = "good" IN
    Do([n |-> "Governor", v |-> v], ok, [o EXCEPT !.gov = TRUE], slot, used, mptr) /\ Pays(ok, {"gov"})
Nullifier(i, v) ==
    LET ok == i \notin o.nulls /\ v = "good" IN
    Do([n |-> "Nullifier", i |-> i, v |-> v], ok, [o EXCEPT !.nulls = @ \cup {i}], slot, used, mptr) /\ Pays(ok, {"null" \o ToString(i)})
\* the later accounts: only while no commitment is on its way; metadata continue where the tree is
Later(v) ==
    LET ok == ~o.v1 /\ v = "good" /\ o.single /\ ~env.queued /\ ~env.hashing IN
    Do([n |-> "Later", v |-> v], ok, [o EXCEPT !.v1 = TRUE], slot, used, env.ptr) /\ Pays(ok, {"v1"})

(* fee schedules *)
CeilDiv(a, b) == (a + b - 1) \div b
IxCount == <<24, 24, 25, 29, 37>>
TxCount == 62
S(lpt, hrew, sub, psub, txs) == [lpt |-> lpt, hrew |-> hrew, sub |-> sub, psub |-> psub, txs |-> txs]
CommitFee(s, r) == CeilDiv(IxCount[r + 1] * (s.lpt + s.hrew), 2^r)
Fees == <<S(5000, 400, 10000, 30000, TxCount), S(7000, 600, 0, 0, TxCount),
          S(5000, 400, 12487, 0, TxCount), S(5000, 400, 12488, 0, TxCount), S(5000, 400, 12489, 0, TxCount),    \* the last one: too much at the highest rate
          S(5000, 400, 0, TxCount * 5000 + 12488, TxCount), S(5000, 400, 0, TxCount * 5000 + 12489, TxCount),   \* the second: too much
          S(5000, 400, 100000, 0, TxCount), S(5000, 400, 0, 2000000, TxCount),
          S(5000, 400, 0, 0, TxCount - 1), S(5000, 400, 0, 0, TxCount + 1), S(5000, 400, 0, 0, 0),
          S(0, 0, 0, 0, TxCount), S(0, 0, 1, 0, TxCount), S(0, 0, 0, 1, TxCount), S(0, 1, 3, 0, TxCount), S(0, 1, 4, 0, TxCount)>>
Valid(s) == \A r \in 0..4 : s.sub <= CommitFee(s, r) /\ s.psub <= s.txs * s.lpt + CommitFee(s, r) /\ s.txs = TxCount
FeeVersion(w, x, v) ==
    LET ok == o.gov /\ w = env.ver /\ o.fee[w] = 0 /\ Valid(Fees[x]) /\ v = "good" IN
    Do([n |-> "Fee", w |-> w, x |-> x, s |-> Fees[x], v |-> v], ok, [o EXCEPT !.fee[w] = x, !.gfee = x], slot, used, mptr)
    /\ Pays(ok, {"fee" \o ToString(w)})

(* data accounts: kind by the first letter; the others are of another program, not rent-exempt, too short, too long, in use *)
Kind(a) == CASE a \in {"s1", "s2", "sforeign", "spoor", "sshort", "slong", "sused"} -> "storage"
             [] a \in {"m1", "m2", "mforeign", "mpoor", "mshort", "mlong", "mused"} -> "metadata"
             [] OTHER -> "null"
Whole(a) == a \in {"s1", "s2", "m1", "m2", "n1", "n2", "n3", "sused", "mused", "nused"}
Takes(p) == IF p \in {"null0", "null1"} THEN "null" ELSE p
Open(p) == CASE p = "storage" -> o.single [] p = "metadata" -> o.v1 [] p = "null0" -> 0 \in o.nulls [] p = "null1" -> 1 \in o.nulls
\* v: "good", the parent not writable, another parent given ("cross"), the data account read-only ("fixed")
Bind(p, s, a, v) ==
    LET ok == /\ Open(p) /\ s \in {"0", "1", "top"} /\ slot[p][s] = "" /\ Whole(a) /\ Kind(a) = Takes(p) /\ a \notin used
              /\ v = "good" IN
    Do([n |-> "Bind", p |-> p, s |-> s, a |-> a, v |-> v], ok, o, [slot EXCEPT ![p][s] = a], used \cup {a}, mptr) /\ UNCHANGED net
\* the same data account twice in one transaction
Twice(p, s, q, t, a) == Do([n |-> "Twice", p |-> p, s |-> s, q |-> q, t |-> t, a |-> a], FALSE, o, slot, used, mptr) /\ UNCHANGED net
\* two data accounts for one place in one transaction
Over(p, s, a, b) == Do([n |-> "Over", p |-> p, s |-> s, a |-> a, b |-> b], FALSE, o, slot, used, mptr) /\ UNCHANGED net
\* what nobody can do: close an account of the program, archive a tree, change the governor
Never(x) == Do([n |-> "Never", x |-> x], FALSE, o, slot, used, mptr) /\ UNCHANGED net

\* what happens meanwhile
Meanwhile(x) ==
    /\ o.single /\ (x = "version" => o.gov)
    /\ env' = CASE x = "queue" -> [env EXCEPT !.queued = TRUE]
                [] x = "hash" -> [env EXCEPT !.hashing = TRUE]
                [] x = "idle" -> [env EXCEPT !.queued = FALSE, !.hashing = FALSE]
                [] x = "leaves" -> [env EXCEPT !.ptr = 7]
                [] x = "version" -> [env EXCEPT !.ver = 1]
    /\ env' # env
    /\ act' = [n |-> "Meanwhile", x |-> x, ok |-> TRUE] /\ steps' = steps + 1
    /\ UNCHANGED <<o, slot, used, mptr, net>>

Next ==
    /\ steps < MaxStep
    /\ \/ "open" \in Menu /\ \E v \in Vars : Single(v)
       \/ "open" \in Menu /\ \E v \in Vars : Governor(v)
       \/ "open" \in Menu /\ \E v \in Vars : Later(v)
       \/ "nulls" \in Menu /\ \E i \in Trees, v \in Vars : Nullifier(i, v)
       \/ "fee" \in Menu /\ \E w \in Versions, x \in Schedules, v \in Vars : FeeVersion(w, x, v)
       \/ "bind" \in Menu /\ \E p \in Parents, s \in Slots, a \in Accts : Bind(p, s, a, "good")
       \/ "bindbad" \in Menu /\ \E p \in Parents, s \in Slots, a \in Accts, v \in {"still", "cross", "fixed"} : Bind(p, s, a, v)
       \/ "twice" \in Menu /\ \E p, q \in Parents, s, t \in Slots, a \in Accts : Twice(p, s, q, t, a)
       \/ "twice" \in Menu /\ \E p \in Parents, s \in Slots, a, b \in Accts : Over(p, s, a, b)
       \/ "never" \in Menu /\ \E x \in {"close", "closechild", "archive", "governor"} : Never(x)
       \/ "meanwhile" \in Menu /\ \E x \in {"queue", "hash", "idle", "leaves", "version"} : Meanwhile(x)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Bound == {slot[p][s] : p \in Parents, s \in Slots} \ {""}
Sane == /\ \A p \in Parents, s \in Slots : slot[p][s] # "" => Open(p) /\ Whole(slot[p][s]) /\ slot[p][s] \in used
        /\ \A p, q \in Parents, s, t \in Slots : slot[p][s] # "" /\ slot[p][s] = slot[q][t] => p = q /\ s = t
        /\ \A w \in Versions : o.fee[w] # 0 => Valid(Fees[o.fee[w]]) /\ w <= env.ver /\ o.gov
        /\ o.v1 => o.single
Stays == [][ /\ \A p \in Parents, s \in Slots : slot[p][s] # "" => slot'[p][s] = slot[p][s]
             /\ \A w \in Versions : o.fee[w] # 0 => o'.fee[w] = o.fee[w]
             /\ o.nulls \subseteq o'.nulls /\ (o.single => o'.single) /\ (o.gov => o'.gov) /\ (o.v1 => o'.v1 /\ mptr' = mptr)
             /\ used \subseteq used' ]_vars
Quiet == [][ ~o.v1 /\ o'.v1 => ~env.queued /\ ~env.hashing /\ mptr' = env.ptr ]_vars
RefusedOnly == [][ ~act'.ok => o' = o /\ slot' = slot /\ used' = used /\ mptr' = mptr /\ net' = net ]_vars

Obs == [o |-> [single |-> o.single, gov |-> o.gov, v1 |-> o.v1, fee |-> {<<w, o.fee[w]>> : w \in Versions}, nulls |-> o.nulls,
               gsched |-> IF o.gfee = 0 THEN S(0, 0, 0, 0, 0) ELSE Fees[o.gfee]],
        fees |-> {<<w, IF o.fee[w] = 0 THEN S(0, 0, 0, 0, 0) ELSE Fees[o.fee[w]]>> : w \in Versions},
        slot |-> {<<p, s, slot[p][s]>> : p \in Parents, s \in Slots}, used |-> used, env |-> env, mptr |-> mptr, net |-> net, steps |-> steps]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
