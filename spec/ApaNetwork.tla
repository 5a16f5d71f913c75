------------------------------ MODULE ApaNetwork ------------------------------
(* The genesis of the attestation network: six wardens apply, complete their   *)
(* quotes, and confirm the quotes of all.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS
    Wardens,          \* registered wardens 1..Wardens; the identifier of warden w is w - 1
    Menu, By, Start,  \* instructions, who acts (0: warden 1 without signing), how far the network is
    Quotes, XKeys, MaxStep
VARIABLES places, steps, act
vars == <<places, steps, act>>
view == <<places, steps>>
Size == 6
Id(w) == w - 1
Person(by) == IF by = 0 THEN 1 ELSE by

Pl(w, x, e, conf) == [w |-> w, q |-> 1, x |-> x, e |-> e, conf |-> conf]
Order == <<7, 5, 6, 2, 4, 3>>
\* (the keys of the places 1 and 2 are the same in the start "shared")
Filled(n, done, confirmed) == [i \in 1..n |-> Pl(Order[i], IF Start = "shared" /\ i = 2 THEN 1 ELSE i, IF i \in done THEN 1 ELSE 0, i \in confirmed)]
Init == /\ places = CASE Start = "empty" -> <<>>
                      [] Start = "four" -> Filled(4, {2}, {})
                      [] Start = "five" -> Filled(5, {1, 2, 3, 4, 5}, {})
                      [] Start = "six" -> Filled(6, {}, {})
                      [] Start = "last" -> Filled(6, {1, 2, 3, 5, 6}, {})
                      [] Start \in {"full", "shared"} -> Filled(6, 1..6, {})
                      [] Start = "confirming" -> Filled(6, 1..6, {2, 4, 5, 6})
                      [] Start = "confirmed" -> Filled(6, 1..6, 1..6)
        /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]
Registered(w) == w \in 1..Wardens
Index(w) == IF \E i \in 1..Len(places) : places[i].w = w THEN CHOOSE i \in 1..Len(places) : places[i].w = w ELSE 0
Applying(p) == ~(Len(p) = Size /\ \A i \in 1..Size : p[i].e # 0)
Confirmed(p) == ~Applying(p) /\ \A i \in 1..Size : p[i].conf
Phase(p) == IF Applying(p) THEN "application" ELSE IF Confirmed(p) THEN "confirmed" ELSE "confirmation"

Do(a, ok, p1) == /\ act' = a @@ [ok |-> ok]
                 /\ places' = IF ok THEN p1 ELSE places
                 /\ steps' = IF ok THEN steps + 1 ELSE steps
\* m: whose registration is given; id: the warden that is named (and its account)
Apply(by, m, id, q, x, net) ==
    Do([n |-> "Apply", by |-> by, m |-> m, id |-> id, q |-> q, x |-> x, net |-> net],
       by # 0 /\ m = by /\ Registered(by) /\ id = Id(by) /\ Index(by) = 0 /\ Len(places) < Size /\ net,
       Append(places, [w |-> Person(by), q |-> q, x |-> x, e |-> 0, conf |-> FALSE]))
Complete(by, m, id, e) ==
    LET i == Index(Person(by)) IN
    Do([n |-> "Complete", by |-> by, m |-> m, id |-> id, e |-> e],
       by # 0 /\ m = by /\ Registered(by) /\ id = Id(by) /\ i # 0 /\ Applying(places),
       IF i = 0 THEN places ELSE [places EXCEPT ![i].e = e])
\* by: the exchange key that signs (0: the right one, without signing); t: whose account is given
Confirm(by, id, t, msg) ==
    LET i == Index(id + 1) IN
    Do([n |-> "Confirm", by |-> by, id |-> id, t |-> t, msg |-> msg, cur |-> places, x0 |-> IF i = 0 THEN 1 ELSE places[i].x],
       by # 0 /\ id = t /\ i # 0 /\ Phase(places) = "confirmation" /\ i > 0 /\ (i # 0 => places[i].x = by /\ ~places[i].conf) /\ msg = "right",
       IF i = 0 THEN places ELSE [places EXCEPT ![i].conf = TRUE])

Msgs == {"right", "rev", "drop", "starts", "swap", "zero"}
Next ==
    /\ steps < MaxStep
    /\ \/ "apply" \in Menu /\ \E by \in By \ {0}, q \in Quotes, x \in XKeys : Apply(by, by, Id(by), q, x, TRUE)
       \/ "applybad" \in Menu /\ \E by \in By, m \in By \ {0}, id \in {Id(b) : b \in By \ {0}}, net \in BOOLEAN : Apply(by, m, id, 1, 9, net)
       \/ "complete" \in Menu /\ \E by \in By \ {0}, e \in Quotes : Complete(by, by, Id(by), e)
       \/ "completebad" \in Menu /\ \E by \in By, m \in By \ {0}, id \in {Id(b) : b \in By \ {0}} : Complete(by, m, id, 2)
       \/ "confirm" \in Menu /\ \E i \in 1..Len(places) : Confirm(places[i].x, Id(places[i].w), Id(places[i].w), "right")
       \/ "confirmbad" \in Menu /\ \E by \in {0, 1, 3, 6, 7}, id \in 0..Wardens, t \in 0..Wardens : Confirm(by, id, t, "right")
       \/ "messages" \in Menu /\ Len(places) > 1 /\ \E i \in 1..Len(places), msg \in Msgs : Confirm(places[i].x, Id(places[i].w), Id(places[i].w), msg)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Distinct == /\ Len(places) <= Size /\ \A i, j \in 1..Len(places) : places[i].w = places[j].w => i = j
            /\ \A i \in 1..Len(places) : Registered(places[i].w)
ConfirmedLate == (\E i \in 1..Len(places) : places[i].conf) => ~Applying(places)
Stays == [][ /\ Len(places') >= Len(places)
             /\ \A i \in 1..Len(places) : /\ places'[i].w = places[i].w /\ places'[i].q = places[i].q /\ places'[i].x = places[i].x
                                          /\ places[i].conf => places'[i].conf
                                          /\ ~Applying(places) => places'[i].e = places[i].e
                                          /\ places'[i].e # places[i].e => act'.by = places[i].w /\ places'[i].e # 0
                                          /\ places'[i].conf # places[i].conf => act'.by = places[i].x /\ act'.msg = "right" ]_vars
Forward == [][ /\ Phase(places) = "confirmation" => Phase(places') # "application"
               /\ Phase(places) = "confirmed" => places' = places ]_vars
RefusedChangesNothing == [][ ~act'.ok => places' = places ]_vars
Obs == [places |-> places, phase |-> Phase(places), steps |-> steps]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
