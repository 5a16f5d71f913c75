-------------------------------- MODULE Vkey --------------------------------
(* The verifying key account: versions, data accounts, authority, freezing.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS
    Start,    \* how far the key is
    Packs,    \* number of packets of the key's bytes
    Menu, By, \* instructions, and who signs them: 1, 2 persons, 3 a stranger, 0 person 1 without signing
    Pos,      \* packets that are written
    MaxStep
VARIABLES k, d, net, steps, act
vars == <<k, d, net, steps, act>>
view == <<k, d, net, steps>>

Datas == {1, 2, 3}
Person(by) == IF by = 0 THEN 1 ELSE by
Key(ex, auth, ver, cur, new, fr) == [ex |-> ex, auth |-> auth, ver |-> ver, cur |-> cur, new |-> new, frozen |-> fr]
\* a data account: still there, taken by a key, what its packets hold
Fresh(x) == [here |-> TRUE, used |-> FALSE, w |-> [p \in Pos |-> IF x = 3 THEN 9 ELSE 0]]
Taken(S) == [x \in Datas |-> IF x \in S THEN [Fresh(x) EXCEPT !.used = TRUE] ELSE Fresh(x)]
\* (the keys of the start are created by person 1, authority 1)
Init == /\ k = CASE Start = "none" -> Key(FALSE, 0, 0, 0, 0, FALSE)
                 [] Start = "one"  -> Key(TRUE, 1, 0, 0, 0, FALSE)
                 [] Start = "new"  -> Key(TRUE, 1, 0, 0, 1, FALSE)
                 [] Start = "cur"  -> Key(TRUE, 1, 1, 1, 0, FALSE)
                 [] Start = "both" -> Key(TRUE, 1, 1, 1, 2, FALSE)
                 [] Start = "frozen" -> Key(TRUE, 1, 1, 1, 2, TRUE)
                 [] Start = "free" -> Key(TRUE, 0, 0, 0, 0, FALSE)
                 [] Start = "freeboth" -> Key(TRUE, 0, 1, 1, 2, FALSE)
        /\ d = Taken({k.cur, k.new})
        /\ net = [p \in 1..3 |-> [paid |-> 0, got |-> 0]]
        /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]

Do(a, ok, k1, d1, net1) ==
    /\ act' = a @@ [ok |-> ok]
    /\ k' = IF ok THEN k1 ELSE k
    /\ d' = IF ok THEN d1 ELSE d
    /\ net' = IF ok THEN net1 ELSE net
    /\ steps' = IF ok THEN steps + 1 ELSE steps
\* who may change the key (nobody recorded: everybody)
May(by) == k.ex /\ ~k.frozen /\ by # 0 /\ (k.auth = 0 \/ k.auth = by)

-----------------------------------------------------------------------------
Create(by, id, auth) ==
    Do([n |-> "Create", by |-> by, id |-> id, auth |-> auth], ~k.ex /\ by # 0 /\ id = 0, Key(TRUE, auth, 0, 0, 0, FALSE), d,
       [net EXCEPT ![Person(by)].paid = @ + 1])
\* x: one of the data accounts, or one that is too short, too long, of another program, not rent-exempt, taken elsewhere (-1 .. -5)
NewVersion(by, x) ==
    Do([n |-> "New", by |-> by, d |-> x], May(by) /\ k.new = 0 /\ x \in Datas /\ d[x].here /\ ~d[x].used, [k EXCEPT !.new = x],
       IF x \in Datas THEN [d EXCEPT ![x].used = TRUE] ELSE d, net)
\* writes one packet into the new version
Write(by, p, v, len, given) ==
    Do([n |-> "Write", by |-> by, p |-> p, v |-> v, len |-> len, given |-> given],
       May(by) /\ k.new # 0 /\ (given \in {"both", "new"} \/ (given = "copy" /\ k.new = 3)) /\ p < Packs /\ len # "short", k,
       IF k.new # 0 /\ p \in Pos THEN [d EXCEPT ![k.new].w[p] = v] ELSE d, net)
\* the new version replaces the current one, whose account is given back to the authority
Update(by, old) ==
    Do([n |-> "Update", by |-> by, old |-> old], May(by) /\ k.new # 0 /\ (k.cur # 0 => old = k.cur) /\ k.ver < 1000,
       [k EXCEPT !.ver = @ + 1, !.cur = k.new, !.new = 0],
       IF k.cur # 0 THEN [d EXCEPT ![k.cur].here = FALSE] ELSE d,
       IF k.cur # 0 THEN [net EXCEPT ![Person(by)].got = @ + 1] ELSE net)
Freeze(by) == Do([n |-> "Freeze", by |-> by], May(by), [k EXCEPT !.frozen = TRUE], d, net)
Authority(by, to) == Do([n |-> "Authority", by |-> by, to |-> to], May(by), [k EXCEPT !.auth = to], d, net)
\* a spend computes with the key
Use(x) == Do([n |-> "Use", d |-> x], k.ex /\ k.ver > 0 /\ x = k.cur, k, d, net)

Bad == {-1, -2, -3, -4, -5}
Next ==
    /\ steps < MaxStep
    /\ \/ "create" \in Menu /\ \E by \in By, id \in {0, 1}, auth \in {0, 1, 2} : Create(by, id, auth)
       \/ "new" \in Menu /\ \E by \in By, x \in Datas : NewVersion(by, x)
       \/ "newbad" \in Menu /\ \E by \in By, x \in Bad : NewVersion(by, x)
       \/ "write" \in Menu /\ \E by \in By, p \in Pos, v \in {1, 2} : Write(by, p, v, "full", "both")
       \/ "writebad" \in Menu /\ \E by \in By, p \in Pos \cup {Packs, Packs + 1}, l \in {"full", "long", "short"} : Write(by, p, 3, l, "new")
       \/ "writebad" \in Menu /\ \E by \in By, p \in Pos, g \in {"both", "cur", "none", "foreign", "copy"} : Write(by, p, 3, "full", g)
       \/ "update" \in Menu /\ \E by \in By, x \in Datas : Update(by, x)
       \/ "freeze" \in Menu /\ \E by \in By : Freeze(by)
       \/ "auth" \in Menu /\ \E by \in By, to \in {1, 2} : Authority(by, to)
       \/ "use" \in Menu /\ \E x \in Datas : Use(x)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Sane == /\ k.cur # 0 => k.ver > 0 /\ d[k.cur].here
        /\ k.new # 0 => k.new # k.cur /\ d[k.new].here
        /\ \A x \in Datas : d[x].used <=> (x \in {k.cur, k.new} \/ ~d[x].here)
        /\ (k.ver > 0) <=> (k.cur # 0)
\* frozen: for ever the same
FrozenStays == [][ k.frozen => k' = k /\ d' = d ]_vars
\* the key in use is never written, and changes only together with the version
InUse == [][ k.cur # 0 /\ k'.cur = k.cur => d'[k.cur] = d[k.cur] ]_vars
ByVersion == [][ k'.cur # k.cur <=> k'.ver = k.ver + 1 ]_vars
\* only the authority
OnlyAuthority == [][ k.ex /\ k.auth # 0 /\ (k' # k \/ d' # d) => act'.n # "Use" /\ act'.by = k.auth ]_vars
RefusedOnly == [][ ~act'.ok => k' = k /\ d' = d ]_vars

Obs == [k |-> k, d |-> [x \in Datas |-> [here |-> d[x].here, used |-> d[x].used, w |-> {<<p, d[x].w[p]>> : p \in Pos}]], net |-> net, steps |-> steps]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
