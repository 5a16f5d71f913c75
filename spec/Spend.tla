-------------------------------- MODULE Spend --------------------------------
(* Spending: initialisation and admission of a spend, its fee, its proof, the   *)
(* verification computation, and finalisation (nullifiers, payouts, change).    *)
(* Transactions are sequences of instructions that take effect together or not  *)
(* at all; Run(st, tx) gives the effect of a transaction on a state.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
    QCap,        \* capacity of the queues                      (239)
    Win,         \* length of the duplicate window              (128)
    Hist,        \* number of recent roots                      (100)
    Tree,        \* leaves per tree                             (2^20)
    \* ---- scenario
    QFill0,      \* commitments queued at the start
    WFill0,      \* output commitments admitted before
    Ptr0,        \* leaves in the active tree (tree number 2; 0 and 1 are closed, 3 is not in use yet)
    Rate,        \* batching rate
    Full,        \* 0: the trees have no nullifiers; 1 (2): the first account of each is full, of larger (smaller) ones
    Slots,       \* verification accounts: 1 and 2 belong to payer 1 (indices 0 and 1), the others to payer 2 (0, 128, 129)
    Start,       \* name of the transactions that lead to the initial state
    Pk,          \* "good" or "bad": the proof of the spend the scenario starts with
    Variants,    \* spends that are initialised
    Menu,        \* families of transactions that are tried
    MaxStep      \* accepted transactions per behaviour

Payer(x) == IF x >= 3 THEN 2 ELSE 1
Index(x) == CASE x = 2 -> 1 [] x = 4 -> 128 [] x = 5 -> 129 [] OTHER -> 0
Other(x) == IF x = 3 THEN 1 ELSE 2

-----------------------------------------------------------------------------
(* Fees (price: 50 lamports per token unit).  The fee of the proof itself depends on the public inputs; *)
(* it is named by the spend and added by the harness.                                                   *)
Sched(v) == IF v = 0 THEN [lpt |-> 5000, bp |-> 75, sub |-> 30000, hrew |-> 400]
            ELSE [lpt |-> 7000, bp |-> 200, sub |-> 0, hrew |-> 600]
CeilDiv(a, b) == (a + b - 1) \div b
IxCount == <<24, 24, 25, 29, 37>>[Rate + 1]
HashFee(r) == CeilDiv(IxCount * (Sched(r.fv).lpt + Sched(r.fv).hrew), 2^Rate)    \* hashing the change commitment, lamports
Sub(r) == Sched(r.fv).sub        \* subvention
Conv(t, lam) == IF t = 0 THEN lam ELSE lam \div 50
NetFee(r) == (Sched(r.fv).bp * r.amt) \div 10000
RentV == 45546240                \* rent of a verification account
RentN == 904800                  \* rent of the duplicate marker
RentA == 2039280                 \* rent of a token account
RentAtok == RentA \div 50
MinSend == 890880                \* rent of an empty account

-----------------------------------------------------------------------------
(* Spends *)
One(n, r) == <<[n |-> n, r |-> r]>>
Good == [tok |-> 0, amt |-> 5000000, fee |-> "exact", opt |-> 0, out |-> 1, ins |-> One(1, "cur"), t0 |-> 2, t1 |-> 1,
         rec |-> "now", fv |-> 0, ata |-> FALSE, sp |-> FALSE, memo |-> FALSE, ref |-> FALSE, req |-> "send",
         vkey |-> 0, big |-> "", rcp |-> "rcp", oc |-> "opt"]
Tok == [Good EXCEPT !.tok = 1, !.amt = 400000, !.rcp = "rcpacc", !.out = 2, !.ins = One(2, "cur")]
Ata == [Tok EXCEPT !.ata = TRUE, !.rcp = "rcp", !.out = 3, !.ins = One(3, "cur")]

V(v) ==
    CASE v = "good"          -> Good
      [] v = "good2"         -> [Good EXCEPT !.ins = One(5, "cur"), !.out = 5, !.amt = 7000000]
      [] v = "same"          -> [Good EXCEPT !.out = 6, !.amt = 3000000]       \* spends the note of "good"
      [] v = "twonull"       -> [Good EXCEPT !.ins = One(1, "cur") \o One(7, "none"), !.out = 7]
      [] v = "swapped"       -> [Good EXCEPT !.ins = One(7, "cur") \o One(1, "none"), !.out = 8]
      [] v = "closed"        -> [Good EXCEPT !.ins = One(1, "c1"), !.t0 = 1, !.t1 = 0, !.out = 9]
      [] v = "token"         -> Tok
      [] v = "ata"           -> Ata
      [] v = "merge"         -> [Good EXCEPT !.amt = 0, !.ins = One(10, "cur"), !.out = 10]
      [] v = "tmerge"        -> [Tok EXCEPT !.amt = 0, !.ins = One(11, "cur"), !.out = 11]
      [] v = "opt"           -> [Good EXCEPT !.opt = 40000, !.ins = One(12, "cur"), !.out = 12]
      [] v = "opt1"          -> [Good EXCEPT !.opt = 1, !.ins = One(57, "cur"), !.out = 57]
      [] v = "topt1"         -> [Tok EXCEPT !.opt = 1, !.ins = One(58, "cur"), !.out = 58]
      [] v = "optall"        -> [Good EXCEPT !.opt = 5000000, !.ins = One(13, "cur"), !.out = 13]
      [] v = "topt"          -> [Tok EXCEPT !.opt = 40000, !.ins = One(14, "cur"), !.out = 14]
      [] v = "ataopt"        -> [Ata EXCEPT !.opt = 40000, !.ins = One(15, "cur"), !.out = 15]
      [] v = "more"          -> [Good EXCEPT !.fee = "more", !.ins = One(16, "cur"), !.out = 16]
      [] v = "tmore"         -> [Tok EXCEPT !.fee = "more", !.ins = One(17, "cur"), !.out = 17]
      [] v = "sp"            -> [Good EXCEPT !.sp = TRUE, !.ins = One(18, "cur"), !.out = 18]
      [] v = "sp2"           -> [Good EXCEPT !.sp = TRUE, !.ins = One(19, "cur"), !.out = 19]
      [] v = "spopt"         -> [Good EXCEPT !.sp = TRUE, !.opt = 40000, !.ins = One(20, "cur"), !.out = 20]
      [] v = "tsp"           -> [Tok EXCEPT !.sp = TRUE, !.ins = One(21, "cur"), !.out = 21]
      [] v = "tspopt"        -> [Tok EXCEPT !.sp = TRUE, !.opt = 40000, !.ins = One(22, "cur"), !.out = 22]
      [] v = "atasp"         -> [Ata EXCEPT !.sp = TRUE, !.ins = One(23, "cur"), !.out = 23]
      [] v = "memo"          -> [Good EXCEPT !.memo = TRUE, !.ins = One(24, "cur"), !.out = 24]
      [] v = "spmemo"        -> [Good EXCEPT !.memo = TRUE, !.sp = TRUE, !.ins = One(25, "cur"), !.out = 25]
      [] v = "ref"           -> [Good EXCEPT !.ref = TRUE, !.ins = One(26, "cur"), !.out = 26]
      [] v = "badacc"        -> [Tok EXCEPT !.rcp = "rcp", !.ins = One(27, "cur"), !.out = 27]     \* recipient is no token account
      [] v = "badmint"       -> [Tok EXCEPT !.rcp = "rcpacc2", !.ins = One(28, "cur"), !.out = 28] \* token account of another mint
      [] v = "ata2"          -> [Ata EXCEPT !.ins = One(51, "cur"), !.out = 51, !.amt = 300000]
      [] v = "ata2sp"        -> [Ata EXCEPT !.ins = One(52, "cur"), !.out = 52, !.opt = 1000, !.sp = TRUE]
      [] v = "v1"            -> [Good EXCEPT !.ins = One(53, "cur"), !.out = 53, !.fv = 1]
      [] v = "tv1"           -> [Tok EXCEPT !.ins = One(54, "cur"), !.out = 54, !.fv = 1]
      [] v = "zmeta"         -> [Good EXCEPT !.ins = One(55, "cur"), !.out = 55]              \* with metadata of zeros only
      [] v = "tzmeta"        -> [Tok EXCEPT !.ins = One(56, "cur"), !.out = 56]
      [] v = "four"          -> [Good EXCEPT !.ins = One(31, "cur") \o One(32, "none") \o One(33, "none") \o One(34, "none"), !.out = 31]
      \* the same account in two places
      [] v = "self"          -> [Good EXCEPT !.rcp = "p1", !.ins = One(81, "cur"), !.out = 81]
      [] v = "tself"         -> [Tok EXCEPT !.rcp = "p1", !.ins = One(82, "cur"), !.out = 82]
      [] v = "spself"        -> [Good EXCEPT !.rcp = "p1", !.sp = TRUE, !.ins = One(83, "cur"), !.out = 83]
      [] v = "topool"        -> [Good EXCEPT !.rcp = "pool", !.ins = One(84, "cur"), !.out = 84]
      [] v = "ttopool"       -> [Tok EXCEPT !.rcp = "pool", !.ins = One(85, "cur"), !.out = 85]
      [] v = "tocoll"        -> [Good EXCEPT !.rcp = "coll", !.ins = One(86, "cur"), !.out = 86]
      [] v = "ttocoll"       -> [Tok EXCEPT !.rcp = "coll", !.ins = One(87, "cur"), !.out = 87]
      [] v = "optrcp"        -> [Good EXCEPT !.opt = 40000, !.oc = "rcp", !.ins = One(88, "cur"), !.out = 88]
      [] v = "toptrcp"       -> [Tok EXCEPT !.opt = 40000, !.oc = "rcp", !.ins = One(89, "cur"), !.out = 89]
      [] v = "optself"       -> [Good EXCEPT !.opt = 40000, !.oc = "p1", !.ins = One(90, "cur"), !.out = 90]
      [] v = "toptself"      -> [Tok EXCEPT !.opt = 40000, !.oc = "p1", !.rcp = "p1", !.ins = One(91, "cur"), !.out = 91]
      [] v = "optpool"       -> [Good EXCEPT !.opt = 40000, !.oc = "pool", !.ins = One(92, "cur"), !.out = 92]
      \* roots
      [] v = "root.prev"     -> [Good EXCEPT !.ins = One(1, "prev")]
      [] v = "root.old"      -> [Good EXCEPT !.ins = One(1, "old")]
      [] v = "root.gone"     -> [Good EXCEPT !.ins = One(1, "gone")]
      [] v = "root.never"    -> [Good EXCEPT !.ins = One(1, "never")]
      [] v = "root.zero"     -> [Good EXCEPT !.ins = One(1, "zero")]
      [] v = "root.noncanon" -> [Good EXCEPT !.ins = One(1, "noncanon")]
      [] v = "root.none"     -> [Good EXCEPT !.ins = One(1, "none")]
      [] v = "root.c1"       -> [Good EXCEPT !.ins = One(1, "c1"), !.t0 = 1, !.t1 = 0]
      [] v = "root.c0"       -> [Good EXCEPT !.ins = One(1, "c0"), !.t0 = 0, !.t1 = 1]
      [] v = "root.c0as1"    -> [Good EXCEPT !.ins = One(1, "c0"), !.t0 = 1]
      [] v = "root.c1asact"  -> [Good EXCEPT !.ins = One(1, "c1"), !.t0 = 2]
      [] v = "root.actas1"   -> [Good EXCEPT !.ins = One(1, "cur"), !.t0 = 1, !.t1 = 2]
      [] v = "root.zero1"    -> [Good EXCEPT !.ins = One(1, "zero"), !.t0 = 1]
      [] v = "root.future"   -> [Good EXCEPT !.ins = One(1, "zero"), !.t0 = 3]
      [] v = "root.futcur"   -> [Good EXCEPT !.ins = One(1, "cur"), !.t0 = 3]
      [] v = "root.same"     -> [Good EXCEPT !.ins = One(1, "cur"), !.t1 = 2]
      [] v = "root.c0as1s"   -> [Good EXCEPT !.ins = One(1, "c0"), !.t0 = 1, !.t1 = 0]
      [] v = "root.two"      -> [Good EXCEPT !.ins = One(1, "cur") \o One(2, "c1")]
      [] v = "root.two0"     -> [Good EXCEPT !.ins = One(1, "c0") \o One(2, "cur"), !.t0 = 0, !.t1 = 2]
      [] v = "root.twogap"   -> [Good EXCEPT !.ins = One(1, "cur") \o One(2, "none") \o One(3, "c1") \o One(4, "none")]
      [] v = "root.twosame"  -> [Good EXCEPT !.ins = One(1, "cur") \o One(2, "cur"), !.t1 = 2]
      [] v = "root.twobad"   -> [Good EXCEPT !.ins = One(1, "cur") \o One(2, "cur")]
      [] v = "root.twobad0"  -> [Good EXCEPT !.ins = One(1, "c1") \o One(2, "c1")]
      [] v = "root.three"    -> [Good EXCEPT !.ins = One(1, "cur") \o One(2, "c1") \o One(3, "c0")]
      \* nullifiers
      [] v = "null.twice"    -> [Good EXCEPT !.ins = One(1, "cur") \o One(1, "none"), !.out = 62]
      [] v = "null.twice2"   -> [Good EXCEPT !.ins = One(4, "cur") \o One(1, "none") \o One(6, "none") \o One(1, "none"), !.out = 63]
      [] v = "null.trees"    -> [Good EXCEPT !.ins = One(1, "cur") \o One(1, "c1"), !.out = 64]
      [] v = "null.second"   -> [Good EXCEPT !.ins = One(4, "cur") \o One(1, "none"), !.out = 65]
      [] v = "null.closed"   -> [Good EXCEPT !.ins = One(1, "c1"), !.t0 = 1, !.t1 = 2, !.out = 66]
      [] v = "null.other"    -> [Good EXCEPT !.ins = One(4, "cur") \o One(1, "c1"), !.out = 67]
      [] v = "null.noncanon" -> [Good EXCEPT !.ins = One(-1, "cur"), !.out = 68]
      [] v = "null.spent"    -> Good
      [] v = "null.spentout" -> [Good EXCEPT !.out = 41]
      [] v = "null.empty"    -> [Good EXCEPT !.ins = <<>>, !.out = 69]
      [] v = "null.five"     -> [Good EXCEPT !.ins = One(1, "cur") \o One(2, "none") \o One(3, "none") \o One(4, "none") \o One(5, "none"), !.out = 70]
      \* everything else that is checked
      [] v = "adm.outzero"   -> [Good EXCEPT !.out = -1]
      [] v = "adm.outbase0"  -> [Good EXCEPT !.out = -3]                       \* poseidon(0, 0) is an ordinary commitment
      [] v = "adm.outlast"   -> [Good EXCEPT !.out = -11]
      [] v = "adm.outold"    -> [Good EXCEPT !.out = -12]
      [] v = "adm.outleft"   -> [Good EXCEPT !.out = -13]
      [] v = "adm.outnc"     -> [Good EXCEPT !.out = -2]
      [] v = "adm.future"    -> [Good EXCEPT !.rec = "future"]
      [] v = "adm.recprev"   -> [Good EXCEPT !.rec = "prev"]
      [] v = "adm.back127"   -> [Good EXCEPT !.rec = "back127"]
      [] v = "adm.back128"   -> [Good EXCEPT !.rec = "back128"]
      [] v = "adm.rec0"      -> [Good EXCEPT !.rec = "zero"]
      [] v = "adm.wrap"      -> [Good EXCEPT !.big = "wrap"]
      [] v = "adm.nowrap"    -> [Good EXCEPT !.big = "nowrap"]
      [] v = "adm.optmore"   -> [Good EXCEPT !.opt = 5000001]
      [] v = "adm.migrate"   -> [Good EXCEPT !.req = "migrate"]
      [] v = "adm.vkey"      -> [Good EXCEPT !.vkey = 1]
      \* fees
      [] v = "fee.low"       -> [Good EXCEPT !.fee = "low"]
      [] v = "fee.zero"      -> [Good EXCEPT !.fee = "zero"]
      [] v = "fee.fv"        -> [Good EXCEPT !.fv = 1]
      [] v = "fee.min"       -> [Good EXCEPT !.amt = MinSend]
      [] v = "fee.below"     -> [Good EXCEPT !.amt = MinSend - 1]
      [] v = "fee.one"       -> [Good EXCEPT !.amt = 1]
      [] v = "fee.amt0"      -> [Good EXCEPT !.amt = 0]
      [] v = "fee.tlow"      -> [Tok EXCEPT !.fee = "low"]
      [] v = "fee.tone"      -> [Tok EXCEPT !.amt = 1]
      [] v = "fee.notoken"   -> [Tok EXCEPT !.tok = 13]
      [] v = "fee.atalam"    -> [Good EXCEPT !.ata = TRUE]
      [] v = "fee.atamin"    -> [Ata EXCEPT !.amt = RentAtok]
      [] v = "fee.atabelow"  -> [Ata EXCEPT !.amt = RentAtok - 1]
      [] v = "fee.atamino"   -> [Ata EXCEPT !.amt = RentAtok + 40000, !.opt = 40000]
      [] v = "fee.atabelowo" -> [Ata EXCEPT !.amt = RentAtok + 39999, !.opt = 40000]

NullifierList(r) == [k \in 1..Len(r.ins) |-> r.ins[k].n]

-----------------------------------------------------------------------------
VARIABLES s, steps, act
vars == <<s, steps, act>>

Accts == {"pool", "coll", "p1", "p2", "rcp", "rcpacc", "rcpata", "opt", "out"}
NoSlot == [st |-> "gone", v |-> "", skip |-> FALSE, comp |-> 0, ver |-> "no", pk |-> "", rcp |-> FALSE, n |-> 0, out |-> 0]
S0 == [ sl    |-> [x \in Slots |-> NoSlot],
        dup   |-> {},                          \* duplicate markers (by the list of nullifiers)
        zom   |-> {},                          \* ... closed by an earlier instruction of the transaction
        mv |-> [t \in 0..3 |-> 0],             \* nullifiers that were ousted from the first account and wait
        spent |-> {},                          \* <<tree, nullifier>>
        win   |-> <<>>,                        \* output commitments admitted (0: removed again)
        q     |-> <<>>,                        \* change commitments queued: [c, v, fv]
        gov   |-> 0,
        ata   |-> FALSE,                       \* the recipient's associated token account exists
        m     |-> [a \in Accts |-> <<0, 0>>],  \* balance changes <<lamports, token>>
        paid  |-> <<>> ]                       \* settled spends <<payer, v>> (their proof fee has been paid)

Mv(m, from, to, t, x) ==
    LET k == IF t = 0 THEN 1 ELSE 2 IN
    [m EXCEPT ![from][k] = @ - x, ![to][k] = IF to = from THEN m[from][k] ELSE @ + x]
RECURSIVE Mvs(_, _)
Mvs(m, l) == IF l = <<>> THEN m ELSE Mvs(Mv(m, l[1][1], l[1][2], l[1][3], l[1][4]), Tail(l))
P(p) == IF p = 1 THEN "p1" ELSE "p2"

Bad(st) == [ok |-> FALSE, s |-> st]
Ok(st) == [ok |-> TRUE, s |-> st]

-----------------------------------------------------------------------------
(* Admission *)
NRoots == Ptr0
RootIsGenuine(tree, r) ==
    CASE tree = 2 -> \/ r = "cur" /\ NRoots >= 1
                     \/ r = "prev" /\ NRoots >= 2
                     \/ r = "old" /\ NRoots >= Hist
      [] tree = 1 -> r = "c1"
      [] tree = 0 -> r = "c0"
      [] OTHER -> FALSE
\* finding F-FUTURE-ROOT: the all-zero root of a tree that has not been closed yet is accepted
RootIsAccepted(tree, r) == RootIsGenuine(tree, r) \/ (tree = 3 /\ r = "zero")

RECURSIVE RootNo(_, _)     \* how many roots are given up to input k
RootNo(r, k) == IF k = 0 THEN 0 ELSE RootNo(r, k - 1) + (IF r.ins[k].r # "none" THEN 1 ELSE 0)
TreeNo(r, k) == IF r.ins[k].r = "none" THEN 1 ELSE RootNo(r, k)      \* 1: t0, 2: t1
TreeOf(r, k) == IF TreeNo(r, k) = 1 THEN r.t0 ELSE r.t1

RecentOf(c) == CASE c = "future" -> Ptr0 + 1 [] c = "now" -> Ptr0 [] c = "prev" -> Ptr0 - 1
                 [] c = "back127" -> Ptr0 - 127 [] c = "back128" -> Ptr0 - 128 [] c = "zero" -> 0
RecentOk(r) == r >= 0 /\ r <= Ptr0 /\ Ptr0 - r < Win

\* window positions 1..WFill0 hold the outputs -101, -102, ...
Admitted(st) == WFill0 + Len(st.win)
OutAt(st, j) == IF j <= WFill0 THEN -100 - j ELSE st.win[j - WFill0]
InWindow(st, c) == \E j \in (IF Admitted(st) > Win THEN Admitted(st) - Win + 1 ELSE 1)..Admitted(st) : OutAt(st, j) = c
OutOf(st, c) ==
    LET a == Admitted(st) IN
    CASE c = -11 -> IF a >= 1 THEN OutAt(st, a) ELSE 50
      [] c = -12 -> IF a >= Win THEN OutAt(st, a - Win + 1) ELSE IF a >= 1 THEN OutAt(st, 1) ELSE 50
      [] c = -13 -> IF a > Win THEN OutAt(st, a - Win) ELSE 50
      [] OTHER -> c

InputsOk(r) ==
    LET N == Len(r.ins) IN
    /\ N \in 1..4
    /\ r.ins[1].r # "none"
    /\ RootNo(r, N) <= 2
    /\ r.t0 # r.t1                       \* two different trees are always given
RootsOk(r) == \A k \in 1..Len(r.ins) : r.ins[k].r # "none" => RootIsAccepted(TreeOf(r, k), r.ins[k].r)
NullifiersOk(st, r) ==
    LET N == Len(r.ins) IN
    /\ \A k \in 1..N : r.ins[k].n > 0                                              \* canonical
    /\ \A j, k \in 1..N : j # k /\ r.ins[j].n = r.ins[k].n => TreeNo(r, j) # TreeNo(r, k)
    /\ \A k \in 1..N : <<TreeOf(r, k), r.ins[k].n>> \notin st.spent
InitOk(st, i) ==
    LET r == V(i.v) IN
    /\ st.sl[i.x].st = "gone" /\ i.w = ""
    /\ Index(i.x) <= 128                 \* a fee payer has 129 indices
    /\ r.req = "send" /\ r.vkey = 0
    /\ InputsOk(r)
    /\ RootsOk(r)
    /\ NullifiersOk(st, r)
    /\ r.out \notin {-1, -2} /\ ~InWindow(st, OutOf(st, r.out))
    /\ RecentOk(RecentOf(r.rec))
    /\ r.big # "wrap"
    /\ r.opt <= r.amt
    /\ NullifierList(r) \notin st.zom
    /\ i.skip <=> NullifierList(r) \in st.dup

InitOp(st, i) ==
    IF ~InitOk(st, i) THEN Bad(st)
    ELSE LET r == V(i.v) p == P(Payer(i.x)) IN
    Ok([st EXCEPT !.sl[i.x] = [NoSlot EXCEPT !.st = "None", !.v = i.v, !.skip = i.skip, !.out = OutOf(st, r.out)],
                  !.dup = @ \cup {NullifierList(r)},
                  !.win = Append(@, OutOf(st, r.out)),
                  !.m = Mvs(@, <<<<p, "out", 0, RentV>>, <<p, "out", 0, IF i.skip THEN 0 ELSE RentN>>>>)])

-----------------------------------------------------------------------------
(* The fee *)
FeeOk(st, i) ==
    LET sl == st.sl[i.x]  r == V(sl.v) IN
    /\ sl.st = "None" /\ i.w = ""
    /\ r.fv = st.gov
    /\ r.tok \in {0, 1}
    /\ r.fee \in {"exact", "more"}
    /\ r.tok = 0 => r.amt = 0 \/ r.amt >= MinSend
    /\ r.ata => r.tok # 0 /\ r.amt >= RentAtok + r.opt
FeeOp(st, i) ==
    IF st.sl[i.x].st # "None" \/ ~FeeOk(st, i) THEN Bad(st)
    ELSE LET r == V(st.sl[i.x].v) p == P(Payer(i.x)) IN
    Ok([st EXCEPT !.sl[i.x].st = "Fee",
                  !.m = Mvs(@, <<<<p, "pool", 0, HashFee(r) + (IF r.ata THEN RentA ELSE 0)>>,
                                 <<"coll", "pool", r.tok, Conv(r.tok, Sub(r))>>>>)])

(* The proof *)
ProofOp(st, i) ==
    IF st.sl[i.x].st # "Fee" \/ i.w # "" THEN Bad(st)
    ELSE Ok([st EXCEPT !.sl[i.x].st = "Setup", !.sl[i.x].pk = i.k])

(* The computation: prepares the public inputs (possible at once), then checks the proof.               *)
(* k: "prep" completes the preparation, "half" goes half way through the pairing, "all" to the result    *)
ComputeOp(st, i) ==
    LET sl == st.sl[i.x]
        want == CASE i.k = "prep" -> 1 [] i.k = "half" -> 2 [] OTHER -> 3 IN
    IF sl.st \notin {"None", "Setup"} \/ sl.ver # "no" \/ want <= sl.comp \/ i.w # "" THEN Bad(st)
    ELSE IF want > 1 /\ sl.st = "None" THEN Bad(st)
    ELSE Ok([st EXCEPT !.sl[i.x].comp = want,
                       !.sl[i.x].ver = IF want = 3 THEN (IF sl.pk = "good" THEN "true" ELSE "false") ELSE "no"])

-----------------------------------------------------------------------------
(* Finalisation.  tx is the transaction, pos the position of the instruction in it *)
InsertRun(tx, pos, idx) ==
    \* number of insertions that follow position pos
    LET S == {k \in 0..(Len(tx) - pos) : \A j \in 1..k : tx[pos + j].i = "Insert" /\ Index(tx[pos + j].x) = idx /\ ~tx[pos + j].cpi}
    IN CHOOSE k \in S : \A j \in S : j <= k
MinIndex(st) == Ptr0 + QFill0 + Len(st.q)
LastIsMemo(r, tx) ==
    LET at == Len(tx) - (IF r.sp THEN 1 ELSE 0) IN at >= 1 /\ tx[at].i = "Memo" /\ tx[at].w = ""
MemoText(r, tx) == tx[Len(tx) - (IF r.sp THEN 1 ELSE 0)].k

\* wrong (w) names the one thing about the instruction that is not as it should be
HashedWrong == {"rcp", "ident", "ref", "iv", "owner"}
SendOp(st, i, tx, pos) ==
    LET sl == st.sl[i.x]  r == V(sl.v)  idx == Index(i.x) IN
    IF sl.st # "Setup" \/ i.w \in HashedWrong THEN Bad(st)
    ELSE IF i.memo /\ ~LastIsMemo(r, tx) THEN Bad(st)
    ELSE IF i.memo # r.memo \/ (i.memo /\ MemoText(r, tx) # "memo") THEN Bad(st)
    ELSE IF sl.ver = "no" THEN Bad(st)
    ELSE IF sl.ver = "false" THEN
        LET out == sl.out
            a == Admitted(st)
            inring == {j \in (IF a > Win THEN a - Win + 1 ELSE 1)..a : OutAt(st, j) = out}
        IN Ok([st EXCEPT !.sl[i.x].st = "Final", !.sl[i.x].rcp = TRUE,
                         !.win = [j \in 1..Len(st.win) |-> IF WFill0 + j \in inring THEN 0 ELSE st.win[j]]])
    ELSE IF i.cpi THEN Bad(st)
    ELSE LET k == pos + InsertRun(tx, pos, idx) + 1 IN
    IF /\ k <= Len(tx) /\ tx[k].i = (IF r.tok = 0 THEN "XferL" ELSE "XferT") /\ Index(tx[k].x) = idx /\ ~tx[k].cpi
       /\ i.w \notin {"total", "token", "mt+", "mt-", "ci+"}
    THEN Ok([st EXCEPT !.sl[i.x].st = "Insert", !.sl[i.x].rcp = TRUE, !.sl[i.x].n = 0])
    ELSE Bad(st)

InsertOp(st, i) ==
    LET sl == st.sl[i.x]  r == V(sl.v)  N == Len(r.ins)  k == sl.n + 1
        Done(c, p) == IF c >= N /\ p = 0 THEN "Final" ELSE "Insert"
        w == IF Full = 1 THEN st.mv[r.t0] + 1 ELSE 0          \* every insertion ousts one of the fillers
    IN
    IF sl.st # "Insert" \/ i.w # "" THEN Bad(st)
    ELSE IF k > N THEN                                         \* all are inserted: those that wait are moved on
        Ok([st EXCEPT !.mv[r.t0] = 0, !.sl[i.x].st = "Final"])
    ELSE IF RootNo(r, k) >= 2 THEN Bad(st)                  \* inputs of a second tree cannot be inserted
    ELSE IF <<r.t0, r.ins[k].n>> \in st.spent \/ w > 4 THEN Bad(st)
    ELSE Ok([st EXCEPT !.spent = @ \cup {<<r.t0, r.ins[k].n>>}, !.sl[i.x].n = k, !.mv[r.t0] = w,
                       !.sl[i.x].st = Done(k, w)])

Paid(r) ==
    CASE r.rcp \in {"p1", "pool", "coll"} -> r.rcp
      [] r.tok = 0 -> "rcp"
      [] r.ata -> "rcpata"
      [] r.rcp = "rcpacc" -> "rcpacc"
      [] OTHER -> "coll"                        \* not an account of the token: the collector receives it

OptTo(r) == IF r.oc = "rcp" THEN Paid(r) ELSE r.oc      \* who receives the optional fee

IsXfer(i) == i.i \in {"XferL", "XferT"}
PayAmount(st, x) == LET r == V(st.sl[x].v) IN
    r.amt - r.opt - (IF r.ata /\ ~st.ata THEN RentAtok ELSE 0)
SpOk(st, i, tx, pos) ==
    LET last == tx[Len(tx)]  r == V(st.sl[i.x].v) IN
    /\ ~i.cpi
    /\ \A j \in (pos + 1)..Len(tx) : ~(IsXfer(tx[j]) /\ ~tx[j].cpi)
    /\ last.i = "Pay" /\ last.w = "" /\ last.p = Payer(i.x) /\ ~last.cpi
    /\ last.t = r.tok /\ last.to = Paid(r)
    /\ last.a = PayAmount(st, i.x)

Settle(st, i, moves, valid) ==
    LET sl == st.sl[i.x]  r == V(sl.v)  ben == IF valid THEN P(Payer(i.x)) ELSE "coll" IN
    [st EXCEPT !.sl[i.x] = [NoSlot EXCEPT !.st = "Closed"],
               !.dup = IF sl.skip THEN @ ELSE @ \ {NullifierList(r)},
               !.zom = IF sl.skip THEN @ ELSE @ \cup {NullifierList(r)},
               !.m = Mvs(@, <<<<"out", ben, 0, RentV + (IF sl.skip THEN 0 ELSE RentN)>>>> \o moves),
               !.q = IF valid THEN Append(@, [c |-> sl.out, v |-> sl.v, fv |-> r.fv]) ELSE @,
               !.paid = IF valid THEN Append(@, <<Payer(i.x), sl.v>>) ELSE @]

XferOp(st, i, tx, pos) ==
    LET sl == st.sl[i.x]  r == V(sl.v)  p == P(Payer(i.x)) IN
    IF sl.st # "Final" \/ (r.tok = 0) # (i.i = "XferL") THEN Bad(st)
    ELSE IF i.w \in {"payer", "sig", "dup"} \/ NullifierList(r) \notin (st.dup \cup st.zom) THEN Bad(st)
    ELSE IF r.tok # 0 /\ i.w \in {"poolacc", "collacc", "payacc"} THEN Bad(st)
    ELSE IF sl.ver = "false" THEN
        \* nothing of the spent amount leaves the pool; what the payer put in goes to the collector
        Ok(Settle(st, i, <<<<"pool", "coll", r.tok, Conv(r.tok, Sub(r))>>,
                           <<"pool", "coll", 0, HashFee(r) + (IF r.ata THEN RentA ELSE 0)>>>>, FALSE))
    ELSE IF r.amt > 0 /\ (i.w = "rcp" \/ (r.opt > 0 /\ i.w = "opt") \/ (r.ata /\ i.w = "wallet") \/ (r.ata /\ ~st.ata /\ i.w = "mint")) THEN Bad(st)
    ELSE IF r.amt > 0 /\ r.sp /\ ~SpOk(st, i, tx, pos) THEN Bad(st)
    ELSE IF QFill0 + Len(st.q) >= QCap THEN Bad(st)
    ELSE LET create == r.amt > 0 /\ r.ata /\ ~st.ata
             art == IF create THEN RentAtok ELSE 0
             to == IF r.sp THEN p ELSE Paid(r)
             moves == IF r.amt = 0 THEN <<>> ELSE
                      << <<"pool", to, r.tok, r.amt - art - r.opt>>,
                         <<"pool", OptTo(r), r.tok, r.opt>> >>
             st2 == Settle(st, i, moves \o
                      << <<"pool", p, r.tok, Conv(r.tok, HashFee(r)) + art>>,       \* and the fee of the proof
                         <<"pool", "coll", r.tok, NetFee(r)>>,
                         <<"pool", p, 0, IF r.ata /\ r.amt > 0 THEN RentA ELSE 0>>,
                         <<p, "out", 0, IF create THEN RentA ELSE 0>> >>, TRUE)
         IN Ok([st2 EXCEPT !.ata = @ \/ create])

PayOp(st, i) ==
    IF i.w = "program" THEN Ok(st)                      \* the same instruction, but to a program that does nothing
    ELSE IF i.to = "rcpata" /\ ~st.ata THEN Bad(st)
    ELSE IF i.w = "attacker" THEN Ok([st EXCEPT !.m = Mv(@, "out", i.to, i.t, i.a)])       \* somebody else's money
    ELSE Ok([st EXCEPT !.m = Mv(@, P(i.p), i.to, i.t, i.a)])

\* lamports sent to an account that has just been closed keep it alive, but it stays closed
ReviveOp(st, i) ==
    IF st.sl[i.x].st # "Closed" THEN Bad(st)
    ELSE Ok([st EXCEPT !.sl[i.x].st = "Dead", !.m = Mv(@, P(Payer(i.x)), "out", 0, RentV)])

Step(st, tx, pos) ==
    LET i == tx[pos] IN
    CASE i.i = "Init" -> InitOp(st, i)
      [] i.i = "Fee" -> FeeOp(st, i)
      [] i.i = "Proof" -> ProofOp(st, i)
      [] i.i = "Compute" -> ComputeOp(st, i)
      [] i.i = "Send" -> SendOp(st, i, tx, pos)
      [] i.i = "Insert" -> InsertOp(st, i)
      [] IsXfer(i) -> XferOp(st, i, tx, pos)
      [] i.i = "Pay" -> PayOp(st, i)
      [] i.i = "Revive" -> ReviveOp(st, i)
      [] i.i = "Memo" -> Ok(st)
      [] i.i = "Upgrade" -> IF st.gov = 0 THEN Ok([st EXCEPT !.gov = 1]) ELSE Bad(st)
RECURSIVE From(_, _, _)
From(st, tx, pos) ==
    IF pos > Len(tx) THEN Ok(st)
    ELSE LET r == Step(st, tx, pos) IN IF r.ok THEN From(r.s, tx, pos + 1) ELSE r
Closed2Gone(st) == [st EXCEPT !.zom = {}, !.sl = [x \in Slots |-> IF st.sl[x].st = "Closed" THEN NoSlot ELSE st.sl[x]]]
Run(st, tx) == LET r == From(st, tx, 1) IN IF r.ok THEN Ok(Closed2Gone(r.s)) ELSE Bad(st)

-----------------------------------------------------------------------------
(* Instructions *)
Base(n, x) == [i |-> n, x |-> x, w |-> "", cpi |-> FALSE]
IInitO(x, v, skip, o) == Base("Init", x) @@ [v |-> v, skip |-> skip, r |-> V(v), out |-> o]
IInit(x, v, skip) == IInitO(x, v, skip, V(v).out)
IFee(x) == Base("Fee", x)
IProof(x, k) == Base("Proof", x) @@ [k |-> k]
IComp(x, k) == Base("Compute", x) @@ [k |-> k]
ISend(x, memo) == Base("Send", x) @@ [memo |-> memo]
IIns(x) == Base("Insert", x)
IXfer(x, tok) == Base(IF tok = 0 THEN "XferL" ELSE "XferT", x)
IPay(p, to, t, a) == Base("Pay", 0) @@ [p |-> p, to |-> to, t |-> t, a |-> a]
IMemo(k) == Base("Memo", 0) @@ [k |-> k]
IRevive(x) == Base("Revive", x)
Wr(i, w) == [i EXCEPT !.w = w]
Cpi(i) == [i EXCEPT !.cpi = TRUE]
Rep(i, n) == [k \in 1..n |-> i]

\* what is still needed of a spend
Rq(st, x) == V(st.sl[x].v)
Inserts(st, x) == IF st.sl[x].ver # "true" THEN 0 ELSE Len(Rq(st, x).ins) + (IF Full = 1 THEN 1 ELSE 0)
Tail_(st, x) ==
    LET r == Rq(st, x) IN
    (IF r.memo THEN <<IMemo("memo")>> ELSE <<>>)
    \o (IF r.sp THEN <<IPay(Payer(x), Paid(r), r.tok, PayAmount(st, x))>> ELSE <<>>)
Head_(st, x) == <<ISend(x, Rq(st, x).memo)>> \o Rep(IIns(x), Inserts(st, x)) \o <<IXfer(x, Rq(st, x).tok)>>
Fin(st, x) == Head_(st, x) \o Tail_(st, x)
Open(st) == {x \in Slots : st.sl[x].st \notin {"gone", "Dead"}}

\* the transactions that are tried, by family: [n |-> name, v |-> tag, tx |-> instructions]
T(n, v, tx) == [n |-> n, v |-> v, tx |-> tx]
SendWrongs == {"rcp", "ident", "ref", "iv", "owner", "total", "token", "mt+", "mt-", "ci+", "ci0"}
XferWrongs == {"payer", "sig", "dup", "poolacc", "collacc", "payacc", "rcp", "opt", "mint", "wallet"}
FinW(st, x) ==
    LET f == Fin(st, x)  h == Head_(st, x)  t == Tail_(st, x)  r == Rq(st, x)  n == Inserts(st, x)
        X == n + 2  \* position of the transfer
    IN
    {T("Finalize", "send-" \o w, [f EXCEPT ![1] = Wr(@, w)]) : w \in SendWrongs}
    \cup {T("Finalize", "xfer-" \o w, [f EXCEPT ![X] = Wr(@, w)]) :
                w \in XferWrongs \ (IF r.sp THEN {"sig"} ELSE {})}        \* (the payment carries the payer's signature)
    \cup {T("Finalize", "memo-flip", [f EXCEPT ![1] = ISend(x, ~r.memo)]),
          T("Finalize", "memo-text", <<ISend(x, TRUE)>> \o Tail(h) \o <<IMemo("memo2")>> \o t),
          T("Finalize", "memo-after", f \o <<IMemo("memo")>>),
          T("Finalize", "memo-program", <<ISend(x, TRUE)>> \o Tail(h) \o <<Wr(IMemo("memo"), "program")>> \o (IF r.sp THEN <<t[Len(t)]>> ELSE <<>>)),
          T("Finalize", "xfer-kind", [f EXCEPT ![X] = IXfer(x, 1 - r.tok)]),
          T("Finalize", "no-xfer", SubSeq(h, 1, n + 1) \o t),
          T("Finalize", "no-insert", <<h[1], h[X]>> \o t),
          T("Finalize", "one-more-insert", <<h[1], IIns(x)>> \o Tail(f)),
          T("Finalize", "gap", <<h[1], IMemo("gap")>> \o Tail(f)),
          T("Finalize", "twice", h \o h \o t),
          T("Finalize", "xfer-twice", h \o <<h[X]>> \o t),
          T("Finalize", "cpi-send", [f EXCEPT ![1] = Cpi(@)]),
          T("Finalize", "cpi-xfer", [f EXCEPT ![X] = Cpi(@)])}
    \cup (IF n > 1 THEN {T("Finalize", "less-insert", <<h[1]>> \o SubSeq(f, 3, Len(f)))} ELSE {})
    \cup (IF ~r.sp THEN {} ELSE
          LET p == t[Len(t)]  front == SubSeq(f, 1, Len(f) - 1) IN
          {T("Finalize", "pay-missing", front),
           T("Finalize", "pay-less", front \o <<[p EXCEPT !.a = @ - 1]>>),
           T("Finalize", "pay-more", front \o <<[p EXCEPT !.a = @ + 1]>>),
           T("Finalize", "pay-first", <<p>> \o front),
           T("Finalize", "pay-other", front \o <<[p EXCEPT !.to = "opt"]>>),
           T("Finalize", "pay-self", front \o <<[p EXCEPT !.to = P(Payer(x))]>>),
           T("Finalize", "pay-attacker", front \o <<Wr(p, "attacker")>>),
           T("Finalize", "pay-program", front \o <<Wr(p, "program")>>),
           T("Finalize", "pay-notlast", f \o <<IMemo("x")>>),
           T("Finalize", "pay-gap", front \o <<IMemo("x")>> \o <<p>>)})
Parts(st, x) ==
    LET r == Rq(st, x)  t == Tail_(st, x) IN
    {T("Send", "", <<ISend(x, r.memo)>>),
     T("Send", "", <<ISend(x, r.memo), IIns(x)>>),
     T("Insert", "", <<IIns(x)>>),
     T("Insert", "wrongtree", <<Wr(IIns(x), "tree")>>),
     T("Xfer", "", <<IXfer(x, r.tok)>>),
     T("Xfer", "tail", <<IXfer(x, r.tok)>> \o t),
     T("Xfer", "insert", <<IIns(x), IXfer(x, r.tok)>> \o t)}
\* the transaction checks of FinalizeVerificationSend name the account index only
Mixed(st, x, y) ==
    {T("Mixed", "xfer", <<ISend(x, FALSE)>> \o Rep(IIns(x), Inserts(st, x)) \o <<IXfer(y, Rq(st, x).tok)>>),
     T("Mixed", "insert", <<ISend(x, FALSE)>> \o Rep(IIns(y), Inserts(st, y)) \o <<IXfer(y, Rq(st, x).tok)>>),
     T("Mixed", "both", Head_(st, x) \o Head_(st, y) \o Tail_(st, x)),
     T("Mixed", "bothpaid", Head_(st, x) \o Tail_(st, x) \o Head_(st, y) \o Tail_(st, y)),
     T("Mixed", "woven", <<ISend(x, FALSE), ISend(y, FALSE)>> \o Rep(IIns(x), Inserts(st, x)) \o Rep(IIns(y), Inserts(st, y))
                         \o <<IXfer(x, Rq(st, x).tok), IXfer(y, Rq(st, y).tok)>> \o Tail_(st, x))}

Ks(st, x) == LET sl == st.sl[x] IN
    IF sl.st = "None" THEN (IF sl.comp = 0 THEN {"prep"} ELSE {"all"})
    ELSE IF sl.st # "Setup" \/ sl.ver # "no" THEN {"all"}
    ELSE CASE sl.comp = 0 -> {"prep", "half", "all"} [] sl.comp = 1 -> {"half", "all"} [] OTHER -> {"all"}
Txs(st) ==
    (IF "init" \in Menu THEN {T("Init", v, <<IInitO(x, v, k, OutOf(st, V(v).out))>>) : x \in {y \in Slots : st.sl[y].st = "gone"}, v \in Variants, k \in BOOLEAN} ELSE {})
    \cup (IF "reinit" \in Menu THEN {T("Reinit", v, <<IInitO(x, v, k, OutOf(st, V(v).out))>>) : x \in {y \in Slots : st.sl[y].st # "gone"}, v \in Variants, k \in BOOLEAN} ELSE {})
    \cup (IF "fee" \in Menu THEN {T("Fee", st.sl[x].v, <<IFee(x)>>) : x \in Open(st)} ELSE {})
    \cup (IF "feew" \in Menu THEN UNION {{T("FeeWrong", w, <<Wr(IFee(x), w)>>) : w \in {"payer", "sig", "poolacc", "collacc", "payacc"}
            \cup (IF Rq(st, x).tok = 0 THEN {} ELSE {"price", "solprice"})} : x \in Open(st)} ELSE {})
    \cup (IF "initfee" \in Menu THEN {T("InitFee", v, <<IInitO(x, v, FALSE, OutOf(st, V(v).out)), IFee(x)>>) : x \in {y \in Slots : st.sl[y].st = "gone"}, v \in Variants} ELSE {})
    \cup (IF "proof" \in Menu THEN {T("Proof", k, <<IProof(x, k)>>) : x \in Open(st), k \in {"good", "bad"}} ELSE {})
    \cup (IF "proofw" \in Menu THEN {T("Proof", w, <<Wr(IProof(x, "good"), w)>>) : x \in Open(st), w \in {"payer", "sig"}} ELSE {})
    \cup (IF "compute" \in Menu THEN UNION {{T("Compute", k, <<IComp(x, k)>>) : k \in Ks(st, x)} : x \in Open(st)} ELSE {})
    \cup (IF "computew" \in Menu THEN {T("Compute", "vkey", <<Wr(IComp(x, "all"), "vkey")>>) : x \in Open(st)} ELSE {})
    \cup (IF "all" \in Menu THEN {T("Compute", k, <<IComp(x, k)>>) : x \in Open(st), k \in {"all"}} ELSE {})
    \cup (IF "fin" \in Menu THEN {T("Finalize", st.sl[x].v, Fin(st, x)) : x \in Open(st)} ELSE {})
    \cup (IF "finw" \in Menu THEN UNION {FinW(st, x) : x \in Open(st)} ELSE {})
    \cup (IF "parts" \in Menu THEN UNION {Parts(st, x) : x \in Open(st)} ELSE {})
    \cup (IF "mixed" \in Menu THEN UNION {Mixed(st, x, y) : x \in Open(st), y \in Open(st)} ELSE {})
    \cup (IF "upgrade" \in Menu /\ st.gov = 0 THEN {T("Upgrade", "", <<Base("Upgrade", 0)>>)} ELSE {})
    \cup (IF "again" \in Menu THEN UNION {
            {T("Again", "init", Fin(st, x) \o <<IInit(x, st.sl[x].v, FALSE)>>),
             T("Again", "initskip", Fin(st, x) \o <<IInit(x, st.sl[x].v, TRUE)>>),
             T("Again", "revive", Head_(st, x) \o <<IRevive(x)>> \o Tail_(st, x)),
             T("Again", "revivexfer", Head_(st, x) \o <<IRevive(x), IXfer(x, Rq(st, x).tok)>> \o Tail_(st, x))} : x \in Open(st)} ELSE {})
    \cup (IF "closed" \in Menu THEN {T("Closed", "", <<ins>>) : ins \in {IFee(1), IProof(1, "good"), IXfer(1, 0), IIns(1)}} ELSE {})

\* spends that a scenario starts with
Begin(x, v, pk) == << <<IInit(x, v, FALSE), IFee(x)>>, <<IProof(x, pk)>>, <<IComp(x, "all")>> >>
BeginSkip(x, v, pk) == << <<IInit(x, v, TRUE), IFee(x)>>, <<IProof(x, pk)>>, <<IComp(x, "all")>> >>
StartTxs ==
    CASE Start = "empty" -> <<>>
      [] Start = "pre" -> << <<IInit(1, "good", FALSE)>> >>
      [] Start = "spent" -> Begin(1, "good", "good") \o << <<ISend(1, FALSE)>> \o Rep(IIns(1), IF Full = 1 THEN 2 ELSE 1) \o <<IXfer(1, 0)>> >>
      [] Start = "spentclosed" -> Begin(1, "closed", "good") \o << <<ISend(1, FALSE)>> \o Rep(IIns(1), IF Full = 1 THEN 2 ELSE 1) \o <<IXfer(1, 0)>> >>
      [] Start = "inv" -> Begin(1, "good", "bad")
      [] Start = "two" -> Begin(1, "good", "good") \o Begin(3, "good2", "good")
      [] Start = "twobad" -> Begin(1, "good", "good") \o Begin(3, "good2", "bad")
      [] Start = "same" -> Begin(1, "good", "good") \o BeginSkip(3, "same", "good")
      [] Start = "samebad" -> Begin(1, "good", "bad") \o BeginSkip(3, "same", "good")
      [] Start = "overlap" -> Begin(1, "good", "good") \o Begin(3, "twonull", "good")
      [] Start = "swapped" -> Begin(1, "twonull", "good") \o Begin(3, "swapped", "good")
      [] Start = "atas" -> Begin(1, "ata", "good") \o Begin(3, "ata2", "good") \o Begin(2, "ata2sp", "good")
      [] Start = "atabad" -> Begin(1, "ata", "good") \o Begin(3, "ata2", "bad") \o Begin(2, "ata2sp", "bad")
      [] Start = "sps" -> Begin(1, "sp", "good") \o Begin(2, "sp2", "good")
      [] Start = "trees" -> Begin(1, "good", "good") \o BeginSkip(3, "closed", "good")
      [] OTHER -> Begin(1, Start, Pk)             \* the spend of that name
RECURSIVE Runs(_, _)
Runs(st, l) == IF l = <<>> THEN Ok(st) ELSE LET r == Run(st, l[1]) IN IF r.ok THEN Runs(r.s, Tail(l)) ELSE r
Init ==
    /\ PrintT("@S " \o ToJson(StartTxs))
    /\ LET r == Runs(S0, StartTxs) IN
       /\ Assert(r.ok, <<"start is refused", Start>>)
       /\ s = r.s
       /\ steps = 0 /\ act = [n |-> "Start", ok |-> TRUE, v |-> Start, tx |-> StartTxs]

Do(t) ==
    LET r == Run(s, t.tx)
        future == r.ok /\ \E k \in 1..Len(t.tx) : t.tx[k].i = "Init" /\ \E j \in 1..Len(V(t.tx[k].v).ins) :
                        LET q == V(t.tx[k].v) IN q.ins[j].r # "none" /\ ~RootIsGenuine(TreeOf(q, j), q.ins[j].r)
        a == [n |-> t.n, v |-> t.v, ok |-> r.ok, tx |-> t.tx]
    IN /\ s' = r.s
       /\ steps' = IF r.ok THEN steps + 1 ELSE steps
       /\ act' = IF future THEN a @@ [known |-> "F-FUTURE-ROOT"] ELSE a
Next == steps < MaxStep /\ \E t \in Txs(s) : Do(t)
Spec == Init /\ [][Next]_vars
view == s

-----------------------------------------------------------------------------
(* Properties *)
\* P07: whatever was tried, no nullifier of a tree is settled twice
SettledNulls(tree) ==
    LET K == {<<k, j>> \in (1..Len(s.paid)) \X (1..4) : j <= Len(V(s.paid[k][2]).ins)}
        tr(kj) == TreeOf(V(s.paid[kj[1]][2]), kj[2])
    IN {kj \in K : tr(kj) = tree}
NullOf(kj) == V(s.paid[kj[1]][2]).ins[kj[2]].n
NoDoubleSpend ==
    \A tree \in 0..3 : \A a, b \in SettledNulls(tree) : a # b => NullOf(a) # NullOf(b)
SettledAreSpent == \A tree \in 0..3 : \A a \in SettledNulls(tree) : <<tree, NullOf(a)>> \in s.spent
\* P10: nothing is computed before the fee is paid and the proof is fixed
Stages == \A x \in Slots : LET sl == s.sl[x] IN
    /\ sl.comp > 1 => sl.st \in {"Setup", "Insert", "Final"} /\ sl.pk # ""
    /\ sl.st \in {"Insert", "Final"} => sl.ver # "no" /\ sl.rcp
    /\ sl.ver = "true" <=> sl.comp = 3 /\ sl.pk = "good"
    /\ sl.st = "Insert" => sl.ver = "true"
\* P08: what an insertion ousts is moved on in the same transaction
NothingWaits == \A t \in 0..3 : s.mv[t] = 0
\* P13: the change of exactly the settled spends is queued, in order
ChangeQueued == /\ Len(s.q) = Len(s.paid)
                /\ \A k \in 1..Len(s.q) : s.q[k].v = s.paid[k][2]
\* P11, P12: what has left the pool is what the settled spends were worth
Leaves(r) == r.amt - (IF Paid(r) = "pool" /\ ~r.sp THEN r.amt - r.opt ELSE 0) - (IF OptTo(r) = "pool" THEN r.opt ELSE 0)
RECURSIVE Out(_, _)
Out(l, t) == IF l = <<>> THEN 0 ELSE
    LET r == V(l[1][2]) IN
    (IF r.tok = t THEN Leaves(r) + Conv(t, HashFee(r)) + NetFee(r) - Conv(t, Sub(r)) ELSE 0)
    + (IF t = 0 THEN - HashFee(r) ELSE 0) + Out(Tail(l), t)
\* fees paid in for spends that are not settled yet
RECURSIVE Held(_, _)
Held(S, t) == IF S = {} THEN 0 ELSE
    LET x == CHOOSE y \in S : TRUE  r == V(s.sl[x].v) IN
    (IF t = 0 THEN HashFee(r) + (IF r.ata THEN RentA ELSE 0) ELSE 0) + (IF r.tok = t THEN Conv(t, Sub(r)) ELSE 0) + Held(S \ {x}, t)
PaidIn == {x \in Slots : s.sl[x].st \in {"Fee", "Setup", "Insert", "Final"}}
\* a merge into a token account that would have to be rented keeps the reserve (cannot happen: amount >= rent)
PoolExact == \A t \in {0, 1} : s.m["pool"][t + 1] = Held(PaidIn, t) - Out(s.paid, t)
\* P03: nobody gets more out than the spent amount and the fees
Conserved == \A k \in {1, 2} :
    s.m["pool"][k] + s.m["coll"][k] + s.m["p1"][k] + s.m["p2"][k] + s.m["rcp"][k] + s.m["rcpacc"][k] + s.m["rcpata"][k]
        + s.m["opt"][k] + s.m["out"][k] = 0
\* the markers are exactly those of the spends in progress that opened one
Markers == \A x \in Slots : s.sl[x].st \in {"None", "Fee", "Setup", "Insert", "Final"} /\ ~s.sl[x].skip
                => NullifierList(V(s.sl[x].v)) \in s.dup

RefusedChangesNothing == [][~act'.ok => UNCHANGED s]_vars
\* P06
GenuineRoots == [][ \A x \in Slots : s.sl[x].st = "gone" /\ s'.sl[x].st # "gone" =>
    LET r == V(s'.sl[x].v) IN \/ "known" \in DOMAIN act'
                              \/ \A j \in 1..Len(r.ins) : r.ins[j].r # "none" => RootIsGenuine(TreeOf(r, j), r.ins[j].r) ]_vars
\* P12: an invalid spend is never settled and inserts nothing
InvalidLeavesNothing == [][ \A x \in Slots : s.sl[x].ver = "false" /\ s'.sl[x].st = "gone" /\ Len(act'.tx) <= 2 =>
    s'.spent = s.spent /\ s'.q = s.q /\ s'.paid = s.paid ]_vars
\* P10
Order == [][ \A x \in Slots :
    /\ s.sl[x].st = "gone" => s'.sl[x].st \in {"gone", "None", "Fee"}
    /\ s.sl[x].st = "None" => s'.sl[x].st \in {"None", "Fee"}
    /\ s.sl[x].st = "Fee" => s'.sl[x].st \in {"Fee", "Setup"}
    /\ s.sl[x].ver # "no" => s'.sl[x].ver \in {s.sl[x].ver} \cup (IF s'.sl[x].st \in {"gone", "Dead"} THEN {"no"} ELSE {})
    ]_vars
SpentForever == [][s.spent \subseteq s'.spent]_vars

Obs == s
Dump == PrintT("@E " \o ToJson([f |-> s, a |-> act', t |-> s']))
=============================================================================
