----------------------------- MODULE WardenStats -----------------------------
(* What wardens did is counted on its day, in the category of the work.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS
    Years,     \* years whose statistics are open (for the wardens 1 and 2)
    Left,      \* how many counts there is still room for (99: plenty)
    Full,      \* which counter is that full: "total", "day", "both"
    Menu, Days, Tags, MaxStep
VARIABLES stats, steps, act
vars == <<stats, steps, act>>
view == <<stats, steps>>
-----------------------------------------------------------------------------
\* The calendar: days are counted since 1970-01-01, the day of the year from 1
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Length(y) == IF Leap(y) THEN 366 ELSE 365
\* (sums of years' lengths)
LeapsBefore(y) == LET z == y - 1 IN (z \div 4) - (z \div 100) + (z \div 400)
FirstDay(y) == 365 * (y - 1970) + LeapsBefore(y) - LeapsBefore(1970)
YearOf(d) == LET g == 1970 + (d \div 366)
                 S == {y \in g..(g + 2) : FirstDay(y) <= d /\ d < FirstDay(y + 1)}
             IN CHOOSE y \in S : TRUE
DayOf(d) == d - FirstDay(YearOf(d)) + 1
InRange(d) == d >= FirstDay(2000) /\ d < FirstDay(2100)
-----------------------------------------------------------------------------
None == {}
Fresh(w, y) == [w |-> w, y |-> y, store |-> {}, send |-> {}, lastd |-> 0, lasts |-> 0]
Init == stats = {Fresh(w, y) : w \in {1, 2}, y \in Years} /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE]
IsOpen(w, y) == \E s \in stats : s.w = w /\ s.y = y
At(w, y) == CHOOSE s \in stats : s.w = w /\ s.y = y
Count(S, d) == IF \E x \in S : x[1] = d THEN (CHOOSE x \in S : x[1] = d)[2] ELSE 0
Total(S) == FoldSet(LAMBDA x, n : n + x[2], 0, S)
Room(S, d) == Left = 99 \/ ((Full = "day" \/ Total(S) < Left) /\ (Full = "total" \/ Count(S, d) < Left))
Plus(S, d) == {x \in S : x[1] # d} \cup {<<d, Count(S, d) + 1>>}
\* the work that is counted: finishing a deposit's hash, paying out a transfer of SOL or of tokens; done by the account in front
Work(tag) == CASE tag = 2 -> "store" [] tag \in {13, 14} -> "send" [] OTHER -> "none"
Prev(prog, tag, pos, len) == [prog |-> prog, tag |-> tag, pos |-> pos, len |-> len]
Good(tag) == Prev("elusiv", tag, 0, 3)
\* place: where the tracking instruction stands ("next": right behind the work)
Track(w, aw, y, ay, day, sec, prev, place, fail) ==
    LET first == place \in {"alone", "before"}
        sees == IF place = "later" \/ first THEN "none" ELSE IF prev.prog = "elusiv" /\ prev.pos = 0 /\ prev.len > 0 THEN Work(prev.tag) ELSE "none"
        good == sees # "none" /\ InRange(day) /\ YearOf(day) = y
        given == w = aw /\ y = ay /\ IsOpen(w, y)
        s == At(w, y)
        D == DayOf(day)
        room == Room(IF sees = "store" THEN s.store ELSE s.send, D)
        counted == given /\ good /\ room
        \* behind "twice" the second tracking sees the first, which is no work
        ok == given /\ (counted \/ ~fail) /\ (place = "twice" => ~fail)
    IN /\ act' = [n |-> "Track", w |-> w, aw |-> aw, y |-> y, ay |-> ay, day |-> day, sec |-> sec, prev |-> prev, place |-> place, fail |-> fail, ok |-> ok]
       /\ stats' = IF ok /\ counted
                   THEN (stats \ {s}) \cup {[s EXCEPT !.store = IF sees = "store" THEN Plus(@, D) ELSE @, !.send = IF sees = "send" THEN Plus(@, D) ELSE @,
                                                      !.lastd = day, !.lasts = sec]}
                   ELSE stats
       /\ steps' = IF ok THEN steps + 1 ELSE steps
Open(w, y) == /\ act' = [n |-> "Open", w |-> w, y |-> y, ok |-> ~IsOpen(w, y)]
              /\ stats' = IF IsOpen(w, y) THEN stats ELSE stats \cup {Fresh(w, y)}
              /\ steps' = IF IsOpen(w, y) THEN steps ELSE steps + 1

\* days around every boundary of a year
Edges(y) == {FirstDay(y), FirstDay(y) + 1, FirstDay(y) + 58, FirstDay(y) + 59, FirstDay(y) + 60, FirstDay(y) + 181, FirstDay(y + 1) - 2, FirstDay(y + 1) - 1}
Y0 == CHOOSE y \in Years : TRUE
Some == {[d |-> FirstDay(y) + d, y |-> y] : d \in Days, y \in Years}
Secs == {0, 43200, 86399}
Next ==
    /\ steps < MaxStep
    /\ \/ "tags" \in Menu /\ \E t \in Tags, f \in BOOLEAN : Track(1, 1, Y0, Y0, FirstDay(Y0) + 40, 100, Good(t), "next", f)
       \/ "prevs" \in Menu /\ \E t \in {2, 13, 14, 3, -1}, g \in {"elusiv", "other"}, p \in 0..4, l \in 0..5, f \in BOOLEAN :
              Track(1, 1, Y0, Y0, FirstDay(Y0) + 40, 100, Prev(g, t, p, l), "next", f)
       \/ "places" \in Menu /\ \E t \in {2, 13, 14, 3}, pl \in {"next", "later", "third", "before", "alone", "twice"}, f \in BOOLEAN :
              Track(1, 1, Y0, Y0, FirstDay(Y0) + 40, 100, Good(t), pl, f)
       \/ "whose" \in Menu /\ \E w \in {1, 2}, aw \in {1, 2, 3}, y \in Years, ay \in Years \cup {1999}, t \in {2, 13}, f \in BOOLEAN :
              Track(w, aw, y, ay, FirstDay(y) + 40, 100, Good(t), "next", f)
       \/ "years" \in Menu /\ \E y \in Years : \E d \in Edges(y), s \in {0, 86399}, f \in {TRUE} : Track(1, 1, y, y, d, s, Good(2), "next", f)
       \/ "wrongyear" \in Menu /\ \E y \in Years : \E d \in {FirstDay(1980), FirstDay(2000) - 1, FirstDay(2000), FirstDay(2000) + 365, FirstDay(2000) + 366, FirstDay(2099) + 364,
                                                  FirstDay(2100), FirstDay(2100) + 1, FirstDay(2104), FirstDay(y) - 1, FirstDay(y + 1)}, s \in {0, 86399}, f \in BOOLEAN :
              Track(1, 1, y, y, d, s, Good(13), "next", f)
       \/ "all" \in Menu /\ \E d \in Days : Track(1, 1, YearOf(d), YearOf(d), d, 7 * d % 86400, Good(13), "next", TRUE)
       \/ "work" \in Menu /\ \E w \in {1, 2}, x \in Some, t \in {2, 13, 14}, s \in {5} : Track(w, w, x.y, x.y, x.d, s, Good(t), "next", TRUE)
       \/ "idle" \in Menu /\ \E x \in Some, f \in BOOLEAN : Track(1, 1, x.y, x.y, x.d, 9, Good(7), "next", f)
       \/ "open" \in Menu /\ \E w \in {1, 2, 3}, y \in Years \cup {1999, 0, 65535} : Open(w, y)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
OneEach == \A s, t \in stats : s.w = t.w /\ s.y = t.y => s = t
Dated == \A s \in stats : \A x \in s.store \cup s.send : x[1] \in 1..Length(s.y) /\ x[2] > 0
\* a step counts at most one operation, in one category
OneCount == [][ act'.n = "Track" =>
                /\ Cardinality(stats \ stats') <= 1
                /\ \A s \in stats \ stats' : \E t \in stats' :
                      /\ t.w = s.w /\ t.y = s.y /\ t.w = act'.w
                      /\ Total(t.store) + Total(t.send) = Total(s.store) + Total(s.send) + 1
                      /\ YearOf(t.lastd) = t.y ]_vars
RefusedChangesNothing == [][ ~act'.ok => stats' = stats ]_vars
Calendar == FirstDay(1970) = 0 /\ FirstDay(2000) = 10957 /\ FirstDay(2100) = 47482

Obs == [stats |-> {[w |-> s.w, y |-> s.y, store |-> s.store, send |-> s.send, migrate |-> {}, lastd |-> s.lastd, lasts |-> s.lasts] : s \in stats}, steps |-> steps]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
