-------------------------------- MODULE Core --------------------------------
(* Deposits, their hashing, the commitment and metadata queues, insertion into  *)
(* the active Merkle tree, closing of trees, and all money that moves on the    *)
(* way.  One action per program instruction; every action has an accepting      *)
(* case and the cases in which the instruction must be refused (ok = FALSE,     *)
(* nothing changes).                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    QCap,        \* capacity of the queues                      (239)
    Win,         \* length of the duplicate window              (128)
    Hist,        \* number of recent roots                      (100)
    Tree,        \* leaves per tree                             (2^20)
    \* ---- scenario: where the history starts
    QFill0,      \* commitments already queued
    WFill0,      \* deposits already admitted
    Ptr0,        \* leaves already in the active tree
    Meta0,       \* metadata already stored
    Trees0,      \* closed trees
    Rate,        \* batching rate
    \* ---- bounds
    MaxDep,      \* deposits per behaviour
    MaxStep,     \* accepted actions per behaviour
    Idx,         \* hash account indices used
    Toks,        \* tokens of ordinary deposits
    Variants,    \* which deposit variants are tried
    Upgrades,    \* governance may switch from fee version 0 to 1
    Refusals     \* whether refused calls other than deposits are generated

VARIABLES
    dep,      \* hash account index -> NoDep or the deposit being hashed
    ndep,     \* deposits admitted so far (their serial number is their identity)
    acc,      \* base commitments admitted in this behaviour
    fill,     \* initial commitments that are still queued (always at the front)
    queue,    \* queued commitments after those
    mqueue,   \* queued metadata after the initial ones
    hs,       \* the insertion in progress
    ptr,      \* leaves in the active tree
    leaves,   \* leaves inserted in this behaviour: [tree, at, c]
    metas,    \* metadata stored in this behaviour: [at, m]
    metaptr,
    nroots,   \* roots of the active tree so far
    trees,    \* number of closed trees
    closed,   \* trees closed in this behaviour: [tree, n] (root over its n leaves)
    gov,      \* current fee version
    pool, coll, snd, war,   \* balance changes <<lamports, token>>; war by warden
    steps,
    act

vars == <<dep, ndep, acc, fill, queue, mqueue, hs, ptr, leaves, metas, metaptr, nroots, trees,
          closed, gov, pool, coll, snd, war, steps, act>>
view == <<dep, ndep, acc, fill, queue, mqueue, hs, ptr, leaves, metas, metaptr, nroots, trees,
          closed, gov, pool, coll, snd, war>>

-----------------------------------------------------------------------------
(* The fee schedule *)
Wardens == {1, 2}
Fee(v) == IF v = 0
          THEN [lpt |-> 5000, bp |-> 120, sub |-> 10000, hrew |-> 400]
          ELSE [lpt |-> 7000, bp |-> 35, sub |-> 0, hrew |-> 600]
CeilDiv(a, b) == (a + b - 1) \div b
BaseSteps == 2
IxCount(r) == <<24, 24, 25, 29, 37>>[r + 1]
Batch(r) == 2^r
Comp(v) == Fee(v).lpt + Fee(v).hrew
BaseFee(v) == BaseSteps * Comp(v) + Fee(v).lpt
CommitFee(v, r) == CeilDiv(IxCount(r) * Comp(v), Batch(r))
NetFee(v, amt) == (Fee(v).bp * amt) \div 10000
Conv(t, lam) == IF t = 0 THEN lam ELSE lam \div 50      \* price: 50 lamports per token unit

(* Amounts: `amt` is a class; "max" is beyond TLC's integers: its money is
   counted by the harness and is 0 here *)
Amount(cls) == CASE cls = "min" -> 1000 [] cls = "mid" -> 77777 [] OTHER -> 0
InLimits(cls) == cls \in {"min", "mid", "max"}

-----------------------------------------------------------------------------
NoDep == [on |-> FALSE, d |-> 0, step |-> 0, w |-> 0, fv |-> 0, tok |-> 0]
NoHash == [active |-> FALSE, setup |-> FALSE, ord |-> 0, step |-> 0, batch |-> <<>>, fv |-> 0]

Two == <<0, 0>>
Add(m, t, x) == [m EXCEPT ![IF t = 0 THEN 1 ELSE 2] = @ + x]

Init ==
    /\ dep = [i \in Idx |-> NoDep]
    /\ ndep = 0 /\ acc = <<>> /\ fill = QFill0 /\ queue = <<>> /\ mqueue = <<>>
    /\ hs = NoHash /\ ptr = Ptr0 /\ leaves = <<>> /\ metas = <<>> /\ metaptr = Meta0
    /\ nroots = Ptr0 \div Batch(Rate) /\ trees = Trees0 /\ closed = <<>> /\ gov = 0
    /\ pool = Two /\ coll = Two /\ snd = Two /\ war = [w \in Wardens |-> Two]
    /\ steps = 0 /\ act = [n |-> "Init"]

-----------------------------------------------------------------------------
(* the duplicate window: admitted bases are the WFill0 initial ones and acc *)
Admitted == WFill0 + Len(acc)
BaseAt(j) == IF j <= WFill0 THEN j ELSE acc[j - WFill0]
InWindow(b) == \E j \in (IF Admitted > Win THEN Admitted - Win + 1 ELSE 1)..Admitted : BaseAt(j) = b
Fresh == 1000 + Len(acc)

BaseOf(cls) ==
    CASE cls = "last"   -> IF Admitted >= 1 THEN BaseAt(Admitted) ELSE Fresh
      [] cls = "oldest" -> IF Admitted >= Win THEN BaseAt(Admitted - Win + 1)
                           ELSE IF Admitted >= 1 THEN BaseAt(1) ELSE Fresh
      [] cls = "left"   -> IF Admitted > Win THEN BaseAt(Admitted - Win) ELSE Fresh
      [] cls = "zero" -> -1 [] cls = "nonscalar" -> -2 [] cls = "nonscalar2" -> -3
      [] OTHER -> Fresh

RecentOf(cls) == CASE cls = "future" -> ptr + 1 [] cls = "now" -> ptr [] cls = "back127" -> ptr - 127
                   [] cls = "back128" -> ptr - 128 [] cls = "prev" -> ptr - 1 [] cls = "zero" -> 0
RecentOk(r) == r >= 0 /\ r <= ptr /\ ptr - r < Win

Good == [tok |-> 0, amt |-> "mid", base |-> "fresh", com |-> "ok", rec |-> "now", fv |-> 0,
         rate |-> 0, sig |-> "both", who |-> "rich"]
\* every request, by name: the ordinary one, with one or two things changed
Request(v) ==
    CASE v = "good"      -> Good
      [] v = "token"     -> [Good EXCEPT !.tok = 1]
      [] v = "min"       -> [Good EXCEPT !.amt = "min"]
      [] v = "max"       -> [Good EXCEPT !.amt = "max"]
      [] v = "below"     -> [Good EXCEPT !.amt = "below"]
      [] v = "above"     -> [Good EXCEPT !.amt = "above"]
      [] v = "huge"      -> [Good EXCEPT !.amt = "huge"]
      [] v = "tmin"      -> [Good EXCEPT !.tok = 1, !.amt = "min"]
      [] v = "tmax"      -> [Good EXCEPT !.tok = 1, !.amt = "max"]
      [] v = "tbelow"    -> [Good EXCEPT !.tok = 1, !.amt = "below"]
      [] v = "tabove"    -> [Good EXCEPT !.tok = 1, !.amt = "above"]
      [] v = "notoken"   -> [Good EXCEPT !.tok = 13]
      [] v = "notoken2"  -> [Good EXCEPT !.tok = 65535]
      [] v = "zero"      -> [Good EXCEPT !.base = "zero"]
      [] v = "nonscalar" -> [Good EXCEPT !.base = "nonscalar"]
      [] v = "nonscalar2" -> [Good EXCEPT !.base = "nonscalar2"]
      [] v = "comns"     -> [Good EXCEPT !.com = "nonscalar"]
      [] v = "last"      -> [Good EXCEPT !.base = "last"]
      [] v = "oldest"    -> [Good EXCEPT !.base = "oldest"]
      [] v = "left"      -> [Good EXCEPT !.base = "left"]
      [] v = "future"    -> [Good EXCEPT !.rec = "future"]
      [] v = "prev"      -> [Good EXCEPT !.rec = "prev"]
      [] v = "back127"   -> [Good EXCEPT !.rec = "back127"]
      [] v = "back128"   -> [Good EXCEPT !.rec = "back128"]
      [] v = "rec0"      -> [Good EXCEPT !.rec = "zero"]
      [] v = "fv"        -> [Good EXCEPT !.fv = 1]
      [] v = "rate"      -> [Good EXCEPT !.rate = 1]
      [] v = "rate-"     -> [Good EXCEPT !.rate = -1]
      [] v = "nosender"  -> [Good EXCEPT !.sig = "payer"]
      [] v = "nopayer"   -> [Good EXCEPT !.sig = "sender"]
      [] v = "poor"      -> [Good EXCEPT !.who = "poor"]
      [] v = "tpoor"     -> [Good EXCEPT !.tok = 1, !.who = "poor"]
      [] v = "self"      -> [Good EXCEPT !.who = "self"]
      [] v = "tself"     -> [Good EXCEPT !.tok = 1, !.who = "self"]
      [] v = "poolacc"   -> [Good EXCEPT !.who = "wrongpool"]
      [] v = "tpoolacc"  -> [Good EXCEPT !.tok = 1, !.who = "wrongpool"]
      [] v = "collacc"   -> [Good EXCEPT !.who = "wrongcoll"]
      [] v = "tcollacc"  -> [Good EXCEPT !.tok = 1, !.who = "wrongcoll"]

-----------------------------------------------------------------------------
Count == steps' = steps + 1

Refuse(a) ==
    /\ act' = a @@ [ok |-> FALSE]
    /\ UNCHANGED <<view, steps>>

(* can-fail variants succeed without any effect *)
Nothing(a) ==
    /\ act' = a @@ [ok |-> TRUE, noop |-> TRUE]
    /\ UNCHANGED <<view, steps>>

Deposit(v, w, i) ==
    LET r == Request(v)
        b == BaseOf(r.base)
        fv == gov + r.fv          \* r.fv: offset from the current version
        rec == RecentOf(r.rec)
        amt == Amount(r.amt)
        net == NetFee(gov, amt)
        compl == BaseFee(gov) + CommitFee(gov, Rate)
        comp == Conv(r.tok, compl)
        sub == Conv(r.tok, Fee(gov).sub)
        a == [n |-> "Deposit", v |-> v, w |-> w, i |-> i, tok |-> r.tok, amt |-> r.amt, base |-> b,
              com |-> r.com, rec |-> rec, fv |-> fv, rate |-> Rate + r.rate, sig |-> r.sig, who |-> r.who,
              cur |-> gov]
        admitted ==
            /\ r.tok \in {0, 1} /\ InLimits(r.amt)
            /\ b > 0 /\ r.com = "ok"
            /\ ~InWindow(b)
            /\ RecentOk(rec)
            /\ r.fv = 0 /\ r.rate = 0
            /\ r.sig = "both" /\ r.who \in {"rich", "self"}
            /\ ~dep[i].on
    IN
    /\ v \in Variants
    /\ rec >= 0 /\ Rate + r.rate >= 0
    /\ IF ~admitted THEN Refuse(a)
       ELSE
        /\ ndep < MaxDep
        /\ act' = a @@ [ok |-> TRUE]
        /\ ndep' = ndep + 1
        /\ acc' = Append(acc, b)
        /\ dep' = [dep EXCEPT ![i] = [on |-> TRUE, d |-> ndep + 1, step |-> 0, w |-> w, fv |-> fv, tok |-> r.tok]]
        \* depositor: amount + network fee + computation fee - subvention
        \* (the warden itself may be the depositor)
        /\ snd' = IF r.who = "self" THEN snd ELSE Add(snd, r.tok, -(amt + net + comp - sub))
        \* warden: receives the computation fee in the token, advances it in lamports
        /\ war' = [war EXCEPT ![w] = Add(Add(@, r.tok, IF r.who = "self" THEN -(amt + net - sub) ELSE comp), 0, -compl)]
        /\ pool' = Add(Add(pool, r.tok, amt), 0, compl)
        /\ coll' = Add(coll, r.tok, net - sub)
        /\ Count
        /\ UNCHANGED <<fill, queue, mqueue, hs, ptr, leaves, metas, metaptr, nroots, trees, closed, gov>>

ComputeBase(i) ==
    LET a == [n |-> "ComputeBase", i |-> i] IN
    IF dep[i].on /\ dep[i].step < BaseSteps
    THEN /\ act' = a @@ [ok |-> TRUE]
         /\ dep' = [dep EXCEPT ![i].step = @ + 1]
         /\ Count
         /\ UNCHANGED <<ndep, acc, fill, queue, mqueue, hs, ptr, leaves, metas, metaptr, nroots, trees,
                        closed, gov, pool, coll, snd, war>>
    ELSE Refusals /\ Refuse(a)

QLen == fill + Len(queue)

\* who: 0 = the depositing warden, 1 = the other one;  dv: 0 = the right fee version, 1 = another
FinalizeBase(i, who, dv) ==
    LET d == dep[i]
        w == IF who = 0 THEN d.w ELSE 3 - d.w
        a == [n |-> "FinalizeBase", i |-> i, w |-> (IF d.on THEN w ELSE 1), fv |-> (IF d.on /\ dv = 1 THEN 1 - d.fv ELSE d.fv)]
    IN
    IF d.on /\ d.step = BaseSteps /\ who = 0 /\ dv = 0 /\ QLen < QCap
    THEN /\ act' = a @@ [ok |-> TRUE]
         /\ pool' = Add(pool, 0, -BaseFee(d.fv))
         /\ war' = [war EXCEPT ![w] = Add(@, 0, BaseFee(d.fv))]
         /\ queue' = Append(queue, [c |-> d.d, fv |-> d.fv])
         /\ mqueue' = Append(mqueue, d.d)
         /\ dep' = [dep EXCEPT ![i] = NoDep]
         /\ Count
         /\ UNCHANGED <<ndep, acc, fill, hs, ptr, leaves, metas, metaptr, nroots, trees, closed, gov, coll, snd>>
    ELSE Refusals /\ Refuse(a)

Setup(cf) ==
    LET a == [n |-> "Setup", cf |-> cf] IN
    IF ~hs.active
    THEN /\ act' = a @@ [ok |-> TRUE]
         /\ hs' = [hs EXCEPT !.setup = TRUE, !.ord = ptr, !.step = 0]
         /\ Count
         /\ UNCHANGED <<dep, ndep, acc, fill, queue, mqueue, ptr, leaves, metas, metaptr, nroots, trees,
                        closed, gov, pool, coll, snd, war>>
    ELSE Refusals /\ IF cf THEN Nothing(a) ELSE Refuse(a)

Min(a, b) == IF a < b THEN a ELSE b
\* initial commitments have the identities -1, -2, ... (from the front), fee version 0
NextBatch == [k \in 1..Batch(Rate) |->
                IF k <= fill THEN [c |-> -(QFill0 - fill + k), fv |-> 0] ELSE queue[k - fill]]
NextMeta == [k \in 1..Batch(Rate) |-> IF k <= fill THEN -(QFill0 - fill + k) ELSE mqueue[k - fill]]
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))

InitHash(cf) ==
    LET a == [n |-> "InitHash", cf |-> cf]
        bs == Batch(Rate)
        enough == QLen >= bs
        samefv == \A k \in 1..bs : NextBatch[k].fv = NextBatch[1].fv
        \* a batch that would fill the tree up is not started: the tree is closed instead
        room == hs.ord + bs < Tree
        metaroom == metaptr + bs <= Tree
    IN
    IF ~hs.active /\ hs.setup /\ enough /\ samefv /\ room /\ metaroom
    THEN /\ act' = a @@ [ok |-> TRUE]
         /\ hs' = [hs EXCEPT !.active = TRUE, !.batch = NextBatch, !.fv = NextBatch[1].fv]
         /\ fill' = fill - Min(fill, bs)
         /\ queue' = Drop(queue, bs - Min(fill, bs))
         /\ mqueue' = Drop(mqueue, bs - Min(fill, bs))
         /\ metas' = metas \o [k \in 1..bs |-> [at |-> metaptr + k - 1, m |-> NextMeta[k]]]
         /\ metaptr' = metaptr + bs
         /\ Count
         /\ UNCHANGED <<dep, ndep, acc, ptr, leaves, nroots, trees, closed, gov, pool, coll, snd, war>>
    ELSE IF ~hs.active /\ hs.setup /\ enough /\ samefv /\ room
    THEN \* known finding F-META: the metadata account is never reset and full after the first tree
         Refuse(a @@ [known |-> "F-META"])
    ELSE Refusals /\ IF cf THEN Nothing(a) ELSE Refuse(a)

\* progress in the insertion is observed after these numbers of instructions
Checkpoints == {0, 1, 2, IxCount(Rate) - 1, IxCount(Rate)}
NextCheck(s) == CHOOSE x \in Checkpoints : x > s /\ \A y \in Checkpoints : y > s => x <= y

ComputeHash(w, dv) ==
    LET fv == IF dv = 0 THEN hs.fv ELSE 1 - hs.fv
        going == hs.active /\ hs.step < IxCount(Rate)
        n == IF going /\ dv = 0 THEN NextCheck(hs.step) - hs.step ELSE 1
        a == [n |-> "ComputeHash", w |-> w, fv |-> fv, times |-> n]
    IN
    IF going /\ dv = 0
    THEN /\ act' = a @@ [ok |-> TRUE]
         /\ hs' = [hs EXCEPT !.step = @ + n]
         /\ pool' = Add(pool, 0, -n * Comp(fv))
         /\ war' = [war EXCEPT ![w] = Add(@, 0, n * Comp(fv))]
         /\ Count
         /\ UNCHANGED <<dep, ndep, acc, fill, queue, mqueue, ptr, leaves, metas, metaptr, nroots, trees,
                        closed, gov, coll, snd>>
    ELSE Refusals /\ Refuse(a)

\* a batch of rate r is finished by r + 1 calls; times is the number of calls
FinalizeHash ==
    LET a == [n |-> "FinalizeHash", times |-> Rate + 1]
        bs == Batch(Rate) IN
    IF hs.active /\ hs.step = IxCount(Rate) /\ ptr + bs <= Tree
    THEN /\ act' = a @@ [ok |-> TRUE]
         /\ leaves' = leaves \o [k \in 1..bs |-> [tree |-> trees, at |-> hs.ord + k - 1, c |-> hs.batch[k].c]]
         /\ ptr' = hs.ord + bs
         /\ nroots' = nroots + 1
         /\ hs' = [hs EXCEPT !.active = FALSE, !.setup = FALSE, !.batch = <<>>]
         /\ Count
         /\ UNCHANGED <<dep, ndep, acc, fill, queue, mqueue, metas, metaptr, trees, closed, gov,
                        pool, coll, snd, war>>
    ELSE Refusals /\ Refuse([n |-> "FinalizeHash", times |-> 1])

\* di: offset from the right tree index
Reset(di) ==
    LET a == [n |-> "Reset", tree |-> trees + di]
        bs == Batch(Rate)
        full == ptr >= Tree \/ (QLen >= bs /\ ptr + bs >= Tree)
    IN
    IF di = 0 /\ full
    THEN /\ act' = a @@ [ok |-> TRUE]
         /\ trees' = trees + 1
         /\ closed' = Append(closed, [tree |-> trees, n |-> ptr])
         /\ ptr' = 0 /\ nroots' = 0
         /\ Count
         /\ UNCHANGED <<dep, ndep, acc, fill, queue, mqueue, hs, leaves, metas, metaptr, gov, pool, coll, snd, war>>
    ELSE Refusals /\ trees + di >= 0 /\ Refuse(a)

Upgrade ==
    /\ Upgrades /\ gov = 0
    /\ act' = [n |-> "Upgrade", ok |-> TRUE]
    /\ gov' = 1
    /\ Count
    /\ UNCHANGED <<dep, ndep, acc, fill, queue, mqueue, hs, ptr, leaves, metas, metaptr, nroots, trees,
                   closed, pool, coll, snd, war>>

Next ==
    /\ steps < MaxStep
    /\ \/ \E v \in Variants, w \in Wardens, i \in Idx : (v # "good" => w = 1) /\ Deposit(v, w, i)
       \/ \E i \in Idx : ComputeBase(i)
       \/ \E i \in Idx, who \in {0, 1}, dv \in {0, 1} : FinalizeBase(i, who, dv)
       \/ \E cf \in BOOLEAN : Setup(cf) \/ InitHash(cf)
       \/ \E w \in Wardens, dv \in {0, 1} : ComputeHash(w, dv)
       \/ FinalizeHash
       \/ \E di \in {-1, 0, 1} : Reset(di)
       \/ Upgrade

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
RECURSIVE QueueFees(_), DepFees(_)
QueueFees(q) == IF q = <<>> THEN 0 ELSE CommitFee(Head(q).fv, Rate) + QueueFees(Tail(q))
DepOwed(i) == IF dep[i].on THEN BaseFee(dep[i].fv) + CommitFee(dep[i].fv, Rate) ELSE 0
DepFees(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE x \in S : TRUE IN DepOwed(i) + DepFees(S \ {i})

\* P04: commitments in the tree, being inserted and queued are, in this order, exactly those that
\* entered the queue, each once and in order
Inserted == [k \in 1..Len(leaves) |-> leaves[k].c]
InFlight == IF hs.active THEN [k \in 1..Len(hs.batch) |-> hs.batch[k].c] ELSE <<>>
FillIds == [k \in 1..fill |-> -(QFill0 - fill + k)]
QueueIds == [k \in 1..Len(queue) |-> queue[k].c]
Pipeline == Inserted \o InFlight \o FillIds \o QueueIds
NotHashing(d) == \A i \in Idx : ~(dep[i].on /\ dep[i].d = d)
NeverLost ==
    LET P == Pipeline
        done == {d \in 1..ndep : NotHashing(d)}
        R == {P[k] : k \in 1..Len(P)} IN
    /\ Cardinality(R) = Len(P)
    /\ \A k \in 1..QFill0 : P[k] = -k
    /\ R = {-k : k \in 1..QFill0} \cup done
\* P04/P05: leaves are consecutive
Consecutive ==
    \A k \in 1..Len(leaves) :
        IF k = 1 \/ leaves[k].tree # leaves[k - 1].tree
        THEN leaves[k].at = (IF leaves[k].tree = Trees0 THEN Ptr0 ELSE 0)
        ELSE leaves[k].at = leaves[k - 1].at + 1
\* P14: the same number of metadata, in the same order, and under the leaf's index (first tree)
MetaAligned ==
    /\ Len(mqueue) = Len(queue)
    /\ \A k \in 1..Len(queue) : mqueue[k] = queue[k].c
    /\ Ptr0 = Meta0 => \A k \in 1..Len(leaves) :
         leaves[k].tree = Trees0 => \E j \in 1..Len(metas) : metas[j].at = leaves[k].at /\ metas[j].m = leaves[k].c
\* P15
QueueBound == QLen <= QCap
\* P16: an insertion in progress always fits the tree it was prepared for
InsertionFits == hs.active => (hs.ord = ptr /\ hs.ord + Len(hs.batch) < Tree)
\* P03: what the pool owes (relative to the start, where it holds exactly what it owes)
FeesOwed ==
    DepFees(Idx)
    + QueueFees(queue)
    + (IF hs.active THEN (IxCount(Rate) - hs.step) * Comp(hs.fv) ELSE 0)
    + (fill - QFill0) * CommitFee(0, Rate)
\* P03/P02: money is conserved, and what the pool holds beyond its fee liabilities is exactly what
\* depositors paid in
Conserved == \A k \in {1, 2} : pool[k] + coll[k] + snd[k] + war[1][k] + war[2][k] = 0
Solvent == pool[1] >= FeesOwed
\* every warden action is paid exactly once: a fully hashed deposit leaves no fee behind (rate 0)
ExactlyPaid == (Rate = 0 /\ Toks = {0}) => pool[1] - FeesOwed >= 0
\* P06/P16
RootCount == nroots * Batch(Rate) = ptr

TypeOK == /\ ptr \in 0..Tree /\ fill \in 0..QFill0 /\ ndep \in 0..MaxDep

\* Action properties
\* P04: nothing leaves the queue except into the insertion in progress
QueueOnlyIntoInsertion ==
    [][(fill + Len(queue) > fill' + Len(queue')) => (~hs.active /\ hs'.active
        /\ [k \in 1..Len(hs'.batch) |-> hs'.batch[k].c] = SubSeq(FillIds \o QueueIds, 1, Batch(Rate)))]_vars
\* P05: while an insertion is in progress the tree does not change
TreeOnlyByFinalize == [][(ptr' # ptr) => act'.n \in {"FinalizeHash", "Reset"}]_vars
\* P16
ClosedForever == [][Len(closed') >= Len(closed) /\ SubSeq(closed', 1, Len(closed)) = closed]_vars
RefusedChangesNothing == [][~act'.ok => UNCHANGED view]_vars

-----------------------------------------------------------------------------
Obs ==
    [ dep |-> [i \in Idx |-> dep[i]], fill |-> fill, queue |-> queue, mqueue |-> mqueue,
      hs |-> [active |-> hs.active, setup |-> hs.setup, ord |-> hs.ord, step |-> hs.step,
              batch |-> hs.batch, fv |-> hs.fv],
      ptr |-> ptr, leaves |-> leaves, metas |-> metas, metaptr |-> metaptr, nroots |-> nroots,
      trees |-> trees, closed |-> closed, adm |-> Admitted, acc |-> acc,
      pool |-> pool, coll |-> coll, snd |-> snd, war |-> war, gov |-> gov, ndep |-> ndep ]
ObsNext ==
    [ dep |-> [i \in Idx |-> dep'[i]], fill |-> fill', queue |-> queue', mqueue |-> mqueue',
      hs |-> [active |-> hs'.active, setup |-> hs'.setup, ord |-> hs'.ord, step |-> hs'.step,
              batch |-> hs'.batch, fv |-> hs'.fv],
      ptr |-> ptr', leaves |-> leaves', metas |-> metas', metaptr |-> metaptr', nroots |-> nroots',
      trees |-> trees', closed |-> closed', adm |-> WFill0 + Len(acc'), acc |-> acc',
      pool |-> pool', coll |-> coll', snd |-> snd', war |-> war', gov |-> gov', ndep |-> ndep' ]
Dump == PrintT("@E " \o ToJson([f |-> Obs, a |-> act', t |-> ObsNext]))
=============================================================================
