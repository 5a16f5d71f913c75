------------------------------- MODULE Wardens -------------------------------
(* The wardens: registration, their own updates, operators, attestation of metadata. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS
    Base,      \* wardens registered before
    Max,       \* members the network has room for
    Menu, By,  \* instructions, and who signs them: persons 1.., 9 the attestation authority, 0 (90) person 1 (9) without signing
    Keys, Confs, Start, MaxTime, MaxStep
VARIABLES recs, list, ops, atts, time, steps, act
vars == <<recs, list, ops, atts, time, steps, act>>
view == <<recs, list, ops, atts, time, steps>>

Person(by) == IF by = 0 THEN 1 ELSE by
\* what a warden says about itself
Conf(n) == CASE n = 1 -> [n |-> 1, op |-> 0, tz |-> 1, reg |-> 1, proxy |-> FALSE, att |-> FALSE, toks |-> {0}]
             [] n = 2 -> [n |-> 2, op |-> 3, tz |-> 2, reg |-> 5, proxy |-> TRUE, att |-> FALSE, toks |-> {1}]
             [] n = 3 -> [n |-> 3, op |-> 1, tz |-> 0, reg |-> 0, proxy |-> FALSE, att |-> FALSE, toks |-> {0, 1}]
             [] n = 4 -> [n |-> 4, op |-> 2, tz |-> 3, reg |-> 6, proxy |-> FALSE, att |-> FALSE, toks |-> {}]
             [] n = 5 -> [n |-> 5, op |-> 0, tz |-> 1, reg |-> 1, proxy |-> FALSE, att |-> TRUE, toks |-> {0}]   \* (claims to be an attester)
Record(key, c, t) == [key |-> key, c |-> c, op |-> c.op, conf |-> FALSE, att |-> FALSE, tz |-> c.tz, reg |-> c.reg, proxy |-> c.proxy,
                      asn |-> 0, valid |-> 0, lut |-> 0, on |-> FALSE, join |-> t, since |-> t]
Place(c) == [c |-> c, reg |-> c.reg]

N == Base + Len(recs)
Has(id) == id >= Base /\ id < N
I(id) == id - Base + 1
Registered(key) == \E i \in 1..Len(recs) : recs[i].key = key
Attesters == {a[1] : a \in atts}
Operators == {o[1] : o \in ops}

\* the wardens of the start: registered by the harness through the same instructions, see Prefix
Init == /\ recs = <<>> /\ list = <<>> /\ ops = {} /\ atts = {} /\ time = 0 /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]

Do(a, ok, recs1, list1, ops1, atts1) ==
    /\ act' = a @@ [ok |-> ok]
    /\ recs' = IF ok THEN recs1 ELSE recs
    /\ list' = IF ok THEN list1 ELSE list
    /\ ops' = IF ok THEN ops1 ELSE ops
    /\ atts' = IF ok THEN atts1 ELSE atts
    /\ steps' = IF ok THEN steps + 1 ELSE steps
    /\ UNCHANGED time
\* a change of one record
Upd(a, ok, id, rec) == Do(a, ok, IF Has(id) THEN [recs EXCEPT ![I(id)] = rec] ELSE recs, list, ops, atts)
Rec(id) == IF Has(id) THEN recs[I(id)] ELSE Record(0, Conf(1), 0)
-----------------------------------------------------------------------------
Register(by, id, key, n, acc) ==
    Do([n |-> "Register", by |-> by, id |-> id, key |-> key, c |-> Conf(n), acc |-> acc],
       by # 0 /\ by = key /\ id = N /\ N < Max /\ ~Registered(key) /\ acc = "own" /\ ~Conf(n).att,
       Append(recs, Record(key, Conf(n), time)), Append(list, Place(Conf(n))), ops, atts)
\* id: the warden that is named, t: the warden whose record is given
Own(by, id, t) == by # 0 /\ id = t /\ Has(id) /\ Rec(id).key = by
State(by, id, t, on) ==
    Upd([n |-> "State", by |-> by, id |-> id, t |-> t, on |-> on], Own(by, id, t), id,
        [Rec(id) EXCEPT !.on = on, !.since = IF on # Rec(id).on THEN time ELSE @])
Lut(by, id, t, l) == Upd([n |-> "Lut", by |-> by, id |-> id, t |-> t, l |-> l], Own(by, id, t), id, [Rec(id) EXCEPT !.lut = l])
Operator(by, own, o) ==
    Do([n |-> "Operator", by |-> by, own |-> own, o |-> o], by # 0 /\ own /\ Person(by) \notin Operators, recs, list, ops \cup {<<by, o>>}, atts)
Confirm(by, id, t) ==
    Upd([n |-> "Confirm", by |-> by, id |-> id, t |-> t], by # 0 /\ id = t /\ Has(id) /\ Rec(id).op \in {0, by}, id,
        [Rec(id) EXCEPT !.conf = TRUE, !.op = by])
Appoint(by, id, t, x) ==
    Do([n |-> "Appoint", by |-> by, id |-> id, t |-> t, x |-> x], by = 9 /\ id = t /\ Has(id) /\ x \notin Attesters,
       IF Has(id) THEN [recs EXCEPT ![I(id)].att = TRUE] ELSE recs, list, ops, atts \cup {<<x, id>>})
Revoke(by, id, t, x) ==
    Do([n |-> "Revoke", by |-> by, id |-> id, t |-> t, x |-> x], by = 9 /\ id = t /\ Has(id) /\ x \in Attesters,
       IF Has(id) THEN [recs EXCEPT ![I(id)].att = FALSE] ELSE recs, list, ops, {a \in atts : a[1] # x})
Said == {[asn |-> 0, tz |-> 1, reg |-> 1, proxy |-> FALSE], [asn |-> 1, tz |-> 1, reg |-> 1, proxy |-> FALSE], [asn |-> 2, tz |-> 2, reg |-> 1, proxy |-> FALSE],
         [asn |-> 3, tz |-> 1, reg |-> 4, proxy |-> FALSE], [asn |-> 4, tz |-> 1, reg |-> 1, proxy |-> TRUE], [asn |-> 5, tz |-> 2, reg |-> 5, proxy |-> TRUE]}
\* (an attester does not attest itself: both records are the same account, the code aborts)
Attest(by, aid, at, id, t, mi, s) ==
    LET r == Rec(id)
        agrees == r.tz = s.tz /\ r.reg = s.reg /\ r.proxy = s.proxy
        ok == /\ by # 0 /\ aid = at /\ id = t /\ Has(aid) /\ Has(id) /\ aid # id
              /\ Rec(aid).key = by /\ Rec(aid).att /\ mi = id
    IN Do([n |-> "Attest", by |-> by, aid |-> aid, at |-> at, id |-> id, t |-> t, mi |-> mi, c |-> s], ok,
          IF Has(id) THEN [recs EXCEPT ![I(id)] = [r EXCEPT !.asn = s.asn, !.tz = s.tz, !.reg = s.reg, !.proxy = s.proxy, !.valid = IF agrees THEN 1 ELSE 2]] ELSE recs,
          IF Has(id) THEN [list EXCEPT ![I(id)].reg = s.reg] ELSE list, ops, atts)
Refused(a) == Do(a, FALSE, recs, list, ops, atts)
Wait == /\ time < MaxTime /\ time' = time + 1 /\ act' = [n |-> "Wait", ok |-> TRUE] /\ UNCHANGED <<recs, list, ops, atts, steps>>

Ids == {Base + i : i \in 0..Len(recs)}
Accs == {"own", "record", "map", "map2", "list", "ids", "any"}
\* how a scenario starts: the first steps are fixed
Prefix == CASE Start = "empty" -> <<>>
            [] Start = "two" -> <<<<"reg", 1, 1>>, <<"reg", 2, 2>>>>
            [] Start = "attester" -> <<<<"reg", 1, 1>>, <<"reg", 2, 2>>, <<"app", 2, 2>>>>
            [] Start = "attesters" -> <<<<"reg", 1, 3>>, <<"reg", 2, 2>>, <<"reg", 3, 1>>, <<"app", 2, 2>>, <<"app", 1, 1>>>>
P == Len(Prefix)
Pre == LET p == Prefix[steps + 1] IN
       CASE p[1] = "reg" -> Register(p[2], N, p[2], p[3], "own")
         [] p[1] = "app" -> Appoint(9, Base + p[2] - 1, Base + p[2] - 1, p[3])
Next ==
    IF steps < P THEN Pre
    ELSE /\ steps < P + MaxStep
         /\ \/ "reg" \in Menu /\ \E by \in By, key \in Keys, n \in Confs, id \in {N - 1, N, N + 1} \ {-1} : Register(by, id, key, n, "own")
            \/ "regplain" \in Menu /\ \E by \in By \ {0, 9}, n \in Confs : ~Registered(by) /\ Register(by, N, by, n, "own")
            \/ "regacc" \in Menu /\ \E by \in By, n \in Confs, a \in Accs : Register(by, N, Person(by), n, a)
            \/ "state" \in Menu /\ \E by \in By, id \in Ids, t \in Ids, on \in BOOLEAN : State(by, id, t, on)
            \/ "lut" \in Menu /\ \E by \in By, id \in Ids, t \in Ids, l \in {0, 1, 2} : Lut(by, id, t, l)
            \/ "op" \in Menu /\ \E by \in By \ {9}, own \in BOOLEAN, o \in {0, 1} : Operator(by, own, o)
            \/ "conf" \in Menu /\ \E by \in By, id \in Ids, t \in Ids : Confirm(by, id, t)
            \/ "appoint" \in Menu /\ \E by \in By, id \in Ids, t \in Ids, x \in {1, 2} : Appoint(by, id, t, x)
            \/ "revoke" \in Menu /\ \E by \in By, id \in Ids, t \in Ids, x \in {1, 2} : Revoke(by, id, t, x)
            \/ "attest" \in Menu /\ \E by \in By, aid \in Ids, id \in Ids, mi \in Ids, s \in Said : aid # id /\ Attest(by, aid, aid, id, id, mi, s)
            \/ "attest1" \in Menu /\ \E by \in By, aid \in Ids, id \in Ids, s \in Said : aid # id /\ Attest(by, aid, aid, id, id, id, s)
            \/ "attestacc" \in Menu /\ \E by \in By, aid \in Ids, at \in Ids, id \in Ids, t \in Ids, mi \in Ids \cup {Base + 100, Max - 1, Max, Max + 1000} :
                    at # t /\ Attest(by, aid, at, id, t, mi, [asn |-> 2, tz |-> 2, reg |-> 3, proxy |-> FALSE])
            \/ "init" \in Menu /\ \E by \in By \ {9} : Refused([n |-> "Init", by |-> by])
            \/ "close" \in Menu /\ \E by \in By, x \in {"ids", "list", "record", "map"} : Refused([n |-> "Close", by |-> by, x |-> x])
            \/ "wait" \in Menu /\ Wait
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Identities == /\ Len(recs) = Len(list) /\ N <= Max
              /\ \A i, j \in 1..Len(recs) : i # j => recs[i].key # recs[j].key
              /\ \A i \in 1..Len(recs) : list[i].c = recs[i].c /\ list[i].reg = recs[i].reg
Times == \A i \in 1..Len(recs) : recs[i].join <= recs[i].since /\ recs[i].since <= time
RefusedChangesNothing == [][ ~act'.ok => UNCHANGED <<recs, list, ops, atts>> ]_vars
NeverForgotten == [][ Len(recs') >= Len(recs) /\ \A i \in 1..Len(recs) : recs'[i].key = recs[i].key /\ recs'[i].join = recs[i].join /\ recs'[i].c = recs[i].c ]_vars
\* at most one record changes, and only by whom it concerns
Changed == {i \in 1..Len(recs) : recs'[i] # recs[i]}
OneRecord == [][ Cardinality(Changed) <= 1 /\ \A i \in Changed : act'.id = Base + i - 1 ]_vars
OwnerOnly == [][ \A i \in Changed :
                    /\ recs'[i].on # recs[i].on \/ recs'[i].lut # recs[i].lut \/ recs'[i].since # recs[i].since => act'.by = recs[i].key
                    /\ recs'[i].on # recs[i].on <=> (recs'[i].since # recs[i].since \/ (recs'[i].on # recs[i].on /\ time = recs[i].since))
                    /\ recs'[i].conf # recs[i].conf => act'.by = recs'[i].op /\ recs[i].op \in {0, act'.by}
                    /\ recs'[i].op # recs[i].op => recs[i].op = 0
                    /\ recs'[i].att # recs[i].att => act'.by = 9
                    /\ <<recs'[i].asn, recs'[i].tz, recs'[i].reg, recs'[i].proxy, recs'[i].valid>> # <<recs[i].asn, recs[i].tz, recs[i].reg, recs[i].proxy, recs[i].valid>>
                         => act'.n = "Attest" /\ \E j \in 1..Len(recs) : j # i /\ recs[j].key = act'.by /\ recs[j].att ]_vars

Obs == [recs |-> recs, list |-> list, ops |-> ops, atts |-> atts, time |-> time, steps |-> steps]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
