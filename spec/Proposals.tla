------------------------------ MODULE Proposals ------------------------------
(* Proposals of the protocol analysis: numbered, attributed, authorised.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS
    NTok,              \* supported tokens (0 is SOL, which is none)
    F1, F2, F3,        \* freeze authorities of the tokens' mints 1, 2, 3 and above: a person, 0 none, 99 no mint at all
    Menu, By, MaxTime, MaxStep
VARIABLES props, targets, given, time, steps, act
vars == <<props, targets, given, time, steps, act>>
view == <<props, targets, given, time, steps>>
Authority(t) == CASE t = 1 -> F1 [] t = 2 -> F2 [] OTHER -> F3
Init == props = <<>> /\ targets = {} /\ given = {} /\ time = 0 /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]
\* as: the proponent that is claimed; con: the token constraint (-1: none); mint: the mint that is given (negative: no supported one);
\* acc, tm: the number of the account, and whose target account is given
Propose(by, id, acc, as, role, con, mint, tgt, tm, lvl) ==
    LET free == con = -1 \/ con <= NTok
        authority == con # -1 /\ con >= 1 /\ con <= NTok /\ mint = con /\ Authority(con) = by
        ok == by # 0 /\ id = Len(props) /\ acc = id /\ tm = tgt /\ free /\ (role = "freeze" => authority)
    IN /\ act' = [n |-> "Propose", by |-> by, id |-> id, acc |-> acc, as |-> as, role |-> role, con |-> con, mint |-> mint, tgt |-> tgt, tm |-> tm, lvl |-> lvl, ok |-> ok]
       /\ props' = IF ok THEN Append(props, [by |-> by, role |-> role, con |-> con, tgt |-> tgt, lvl |-> lvl, time |-> time]) ELSE props
       /\ targets' = IF ok /\ tgt \notin given THEN targets \cup {tgt} ELSE targets
       /\ steps' = IF ok THEN steps + 1 ELSE steps
       /\ UNCHANGED <<time, given>>
Wait == /\ time < MaxTime /\ time' = time + 1 /\ act' = [n |-> "Wait", ok |-> TRUE] /\ UNCHANGED <<props, targets, given, steps>>
Cons == {-1, 0, 1, 2, NTok, NTok + 1, NTok + 2, 65535}
Next ==
    /\ steps < MaxStep
    /\ \/ "plain" \in Menu /\ \E by \in By, as \in {1, 2}, tgt \in {1, 2}, lvl \in {0, 1, 2} : Propose(by, Len(props), Len(props), as, "default", -1, -3, tgt, tgt, lvl)
       \/ "ids" \in Menu /\ \E by \in By, id \in {Len(props) - 1, Len(props), Len(props) + 1}, acc \in {Len(props) - 1, Len(props), Len(props) + 1}, tm \in {1, 2} :
              Propose(by, id, acc, 1, "default", -1, -3, 1, tm, 1)
       \/ "roles" \in Menu /\ \E by \in By, role \in {"default", "freeze"}, con \in Cons, mint \in {-3, -2, -1} \cup 0..NTok : Propose(by, Len(props), Len(props), 1, role, con, mint, 2, 2, 2)
       \/ "freeze" \in Menu /\ \E by \in By, con \in 0..NTok, tgt \in {1, 2} : Propose(by, Len(props), Len(props), 2, "freeze", con, con, tgt, tgt, 0)
       \/ "wait" \in Menu /\ Wait
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Authorised == \A i \in 1..Len(props) : props[i].role = "freeze" => props[i].con \in 1..NTok /\ Authority(props[i].con) = props[i].by
NeverOverwritten == [][ Len(props') \in {Len(props), Len(props) + 1} /\ SubSeq(props', 1, Len(props)) = props ]_vars
Attributed == [][ Len(props') > Len(props) => props'[Len(props')].by = act'.by /\ act'.by # 0 /\ props'[Len(props')].time = time ]_vars
RefusedChangesNothing == [][ ~act'.ok => UNCHANGED <<props, targets>> ]_vars
Obs == [props |-> props, targets |-> targets, time |-> time, steps |-> steps]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
