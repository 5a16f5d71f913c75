"""Scenarios (specification, constants, suite of the harness) and the properties they decide."""
SCENARIOS, PROPS = {}, {}


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (list, tuple, range)):
        return "{" + ", ".join(tla(x) for x in v) + "}"
    return str(v)


def scenario(name, spec, suite, consts, inv=(), props=(), crate="core", extra=None, expect=(), **kw):
    assert name not in SCENARIOS, name
    SCENARIOS[name] = dict(spec=spec, suite=suite, crate=crate, consts={k: tla(v) for k, v in consts.items()},
                           harness={k: list(v) if isinstance(v, (list, tuple, range)) else v for k, v in (consts | (extra or {})).items()},
                           inv=list(inv), props=list(props), expect=list(expect), **kw)
    return name


# ------------------------------------------------------------------ deposits, hashing, tree (Core.tla)
TREE = 1 << 20
CORE_INV = ["TypeOK", "NeverLost", "Consecutive", "MetaAligned", "QueueBound", "InsertionFits", "Conserved", "Solvent", "ExactlyPaid", "RootCount"]
CORE_PROPS = ["QueueOnlyIntoInsertion", "TreeOnlyByFinalize", "ClosedForever", "RefusedChangesNothing"]


def core(name, extra=None, expect=(), **kw):
    c = dict(QCap=239, Win=128, Hist=100, Tree=TREE, QFill0=0, WFill0=0, Ptr0=0, Meta0=None, Trees0=0, Rate=0, MaxDep=0, MaxStep=9,
             Idx=[1], Toks=[0], Variants=["good"], Upgrades=False, Refusals=True)
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c.update(kw)
    if c["Meta0"] is None:
        c["Meta0"] = c["Ptr0"]
    return scenario("core." + name, "Core", "core", c, CORE_INV, CORE_PROPS, extra=extra, expect=expect, **opts)


ALL_VARIANTS = ["good", "token", "min", "max", "below", "above", "huge", "tmin", "tmax", "tbelow", "tabove", "notoken", "notoken2", "zero",
                "nonscalar", "nonscalar2", "comns", "last", "oldest", "left", "future", "prev", "back127", "back128", "rec0", "fv", "rate", "rate-",
                "nosender", "nopayer", "poor", "tpoor", "poolacc", "tpoolacc", "collacc", "tcollacc", "self", "tself"]
PIPE = ["Deposit", "ComputeBase", "FinalizeBase", "Setup", "InitHash", "ComputeHash"]
INS = ["Setup", "InitHash", "ComputeHash", "FinalizeHash"]

core("pipe", MaxDep=2, MaxStep=10, Idx=[1, 2], Variants=["good", "token"], expect=PIPE)
core("pipe1", MaxDep=1, MaxStep=13, Variants=["good"], expect=PIPE + ["FinalizeHash"])
core("pipeself", MaxDep=2, MaxStep=10, Idx=[1, 2], Variants=["self", "tself"], expect=PIPE)
core("pipe2q", MaxDep=1, MaxStep=15, QFill0=2, Ptr0=7, WFill0=3, Variants=["token"], expect=PIPE + ["FinalizeHash"])
for nm, p, wf in (("adm.empty", 0, 0), ("adm.127", 127, 127), ("adm.128", 128, 128), ("adm.129", 129, 129), ("adm.200", 200, 200)):
    core(nm, Ptr0=p, WFill0=wf, MaxDep=2, MaxStep=2, Variants=ALL_VARIANTS, Refusals=False, expect=["Deposit", "Deposit:no"])
core("adm.idx", Ptr0=3, WFill0=3, MaxDep=3, MaxStep=4, Idx=[1, 2], Variants=["good", "token", "last", "max"], Refusals=False)
core("window", Ptr0=5, WFill0=126, MaxDep=4, MaxStep=4, Idx=[1, 2, 3, 4], Variants=["good", "last", "oldest", "left"], Refusals=False)
core("wrap", QFill0=238, MaxDep=2, MaxStep=10, Idx=[1, 2], Ptr0=11, extra={"Head": 236}, expect=["FinalizeBase:no", "InitHash"])
core("wrap2", QFill0=239, MaxDep=1, MaxStep=9, Ptr0=12, extra={"Head": 239}, expect=["FinalizeBase:no", "InitHash"])
core("roots", QFill0=4, Ptr0=98, MaxStep=28, expect=INS)
core("roots0", QFill0=3, Ptr0=0, MaxStep=21, expect=INS)
core("end", QFill0=4, Ptr0=TREE - 3, Meta0=17, MaxStep=22, expect=INS + ["Reset", "InitHash:no", "Reset:no"])
core("end2", QFill0=2, Ptr0=TREE - 2, Meta0=17, Trees0=1, MaxStep=16, MaxDep=0, expect=INS + ["Reset", "InitHash:no"])
core("endempty", QFill0=0, Ptr0=TREE - 1, Meta0=17, MaxStep=9, MaxDep=1, expect=["Reset", "Setup"])
core("endfull", QFill0=1, Ptr0=TREE, Meta0=17, Trees0=2, MaxStep=10, expect=["Reset", "Setup", "InitHash", "InitHash:no"])
core("endmeta", QFill0=3, Ptr0=TREE - 2, MaxStep=10)
core("endmeta2", QFill0=3, Ptr0=0, Trees0=1, Meta0=TREE, MaxStep=4)
for n in (41955, 125843, 293619, 293631, 65535):
    core(f"child{n}", QFill0=2, Ptr0=n, MaxStep=14, expect=INS)
for r in (1, 2, 3, 4):
    core(f"rate{r}", QFill0=2 << r, Ptr0=48, WFill0=48, Rate=r, MaxDep=1, MaxStep=14, expect=INS)
    core(f"rate{r}h", QFill0=2 << r, Ptr0=96 << r, Rate=r, MaxStep=16, expect=INS)
for n in (1, 511, 512, 131071, 524287, 1000000):
    core(f"at{n}", QFill0=2, Ptr0=n, MaxStep=14, expect=INS)
core("at4", QFill0=8, Ptr0=4, Rate=2, MaxStep=14, expect=INS)
core("at24", QFill0=16, Ptr0=24, Rate=3, MaxStep=14, expect=INS)
core("at112", QFill0=32, Ptr0=112, Rate=4, MaxStep=14, expect=INS)
core("rate1end", QFill0=7, Ptr0=TREE - 4, Meta0=20, Rate=1, MaxStep=16, expect=INS + ["Reset"])
core("upgrade", QFill0=1, Ptr0=3, MaxDep=2, MaxStep=10, Idx=[1, 2], Upgrades=True, Variants=["good", "fv"], expect=["Upgrade", "Deposit:no", "FinalizeBase"])
core("upgrade1", QFill0=1, Ptr0=2, Rate=1, MaxDep=1, MaxStep=8, Upgrades=True, Variants=["good"], expect=["Upgrade", "InitHash:no"])

# ------------------------------------------------------------------ spending (Spend.tla)
SPEND_INV = ["NoDoubleSpend", "NothingWaits", "SettledAreSpent", "Stages", "ChangeQueued", "PoolExact", "Conserved", "Markers"]
SPEND_PROPS = ["RefusedChangesNothing", "GenuineRoots", "InvalidLeavesNothing", "Order", "SpentForever"]


def spend(name, expect=(), **kw):
    c = dict(QCap=239, Win=128, Hist=100, Tree=TREE, QFill0=0, WFill0=3, Ptr0=105, Rate=0, Full=0, Slots=[1], Start="empty", Pk="good", Variants=["good"], Menu=[], MaxStep=1)
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c.update(kw)
    return scenario("spend." + name, "Spend", "spend", c, SPEND_INV, SPEND_PROPS, expect=expect, **opts)


ROOTS = ["root." + x for x in "prev old gone never zero noncanon none c1 c0 c0as1 c1asact actas1 zero1 same c0as1s future futcur two two0 twogap twosame twobad twobad0 three".split()]
NULLS = ["null." + x for x in "twice twice2 trees second closed other noncanon spent spentout empty five".split()]
ADMS = ["adm." + x for x in "outzero outbase0 outlast outold outleft outnc future recprev back127 back128 rec0 wrap nowrap optmore migrate vkey".split()]
FEES = ["fee." + x for x in "low zero fv min below one amt0 tlow tone notoken atalam atamin atabelow atamino atabelowo".split()]
PLAIN = ["good", "good2", "twonull", "closed", "token", "ata", "merge", "tmerge", "opt", "opt1", "optall", "topt", "topt1", "ataopt", "more", "tmore",
         "sp", "spopt", "tsp", "tspopt", "atasp", "memo", "spmemo", "ref", "badacc", "badmint", "four", "zmeta", "tzmeta"]
ALIAS = ["self", "tself", "spself", "topool", "ttopool", "tocoll", "ttocoll", "optrcp", "toptrcp", "optself", "toptself", "optpool"]

for pt, wf in ((105, 3), (0, 0), (1, 1), (99, 3), (100, 127), (101, 128), (130, 129), (300, 200)):
    spend(f"adm.{pt}", Ptr0=pt, WFill0=wf, Variants=["good"] + ROOTS + NULLS + ADMS, Menu=["init"], expect=["Init", "Init:no"] if pt else ["Init:no"])
for s0 in ("spent", "spentclosed", "pre"):
    spend(f"null.{s0}", Start=s0, Slots=[1, 3], Variants=["good", "same", "twonull", "swapped", "closed"] + NULLS, Menu=["init", "reinit"], expect=["Init:no", "Init"])
spend("window", WFill0=127, Slots=[1, 2, 3], Variants=["good", "adm.outlast", "adm.outold", "adm.outleft"], Menu=["init"], MaxStep=3, expect=["Init", "Init:no"])
spend("fees", Variants=PLAIN + ALIAS + FEES, Menu=["initfee"], expect=["InitFee", "InitFee:no"])
spend("stages", Menu=["init", "reinit", "fee", "feew", "proof", "proofw", "compute", "computew", "all", "fin", "closed"], MaxStep=9,
      expect=["Init", "Fee", "FeeWrong:no", "Proof", "Compute", "Finalize", "Closed:no", "Reinit:no"])
spend("stagestok", Variants=["ata"], Menu=["init", "fee", "feew", "proof", "proofw", "all", "fin"], MaxStep=6, expect=["Fee", "FeeWrong:no", "Finalize"])
for v in PLAIN + ALIAS + ["two"]:
    spend(f"fin.{v}", Start=v, Slots=[1, 3] if v == "two" else [1], Menu=["fin", "finw", "parts"], MaxStep=2, expect=["Finalize:no"])
    if v != "two" and v not in ("spself", "tocoll", "ttocoll", "optrcp", "toptrcp", "optself", "toptself"):
        spend(f"bad.{v}", Start=v, Pk="bad", Menu=["fin", "finw", "parts"], MaxStep=2, expect=["Finalize", "Finalize:no"])
for s0 in ("two", "twobad", "same", "samebad", "overlap", "swapped", "trees", "sps"):
    spend(f"pair.{s0}", Start=s0, Slots=[1, 2, 3], Menu=["fin", "parts", "mixed"], MaxStep=4, expect=["Finalize", "Mixed:no"])
for s0 in ("atas", "atabad"):
    spend(f"pair.{s0}", Start=s0, Slots=[1, 2, 3], Menu=["fin"], MaxStep=3, expect=["Finalize"])
for rt in (1, 2, 4):
    spend(f"rate{rt}", Rate=rt, Variants=["good", "token", "ata"], Menu=["initfee", "proof", "all", "fin"], MaxStep=4, expect=["InitFee", "Finalize"])
    spend(f"rate{rt}bad", Rate=rt, Start="token", Pk="bad", Menu=["fin"], MaxStep=1, expect=["Finalize"])
spend("upgrade", Slots=[1, 3], Variants=["good", "v1", "token", "tv1"], Menu=["initfee", "init", "fee", "upgrade"], MaxStep=4, expect=["Upgrade", "InitFee", "InitFee:no", "Fee:no"])
spend("upgrade2", Start="good", Slots=[1, 3], Variants=["v1"], Menu=["initfee", "proof", "all", "fin", "upgrade"], MaxStep=6, expect=["Upgrade", "InitFee", "Finalize(v1)", "Finalize(good)"])
spend("upgrade3", Start="tsp", Slots=[1, 3], Variants=["tv1"], Menu=["initfee", "proof", "all", "fin", "upgrade"], MaxStep=6, expect=["Upgrade", "InitFee", "Finalize(tv1)", "Finalize(tsp)"])
spend("index", Slots=[3, 4, 5], Variants=["good", "good2", "same"], Menu=["init", "reinit", "fee"], MaxStep=2, expect=["Init", "Init:no"])
for s0 in ("good", "token", "sp", "inv"):
    spend(f"again.{s0}", Start=s0, Slots=[1, 3], Variants=["good", "same", "token", "sp"], Menu=["init", "again"], MaxStep=2, expect=["Again"])
for q in (238, 239):
    spend(f"full.{q}", Start="two", QFill0=q, Slots=[1, 3], Menu=["fin", "parts"], MaxStep=3)
for v in ("good", "twonull", "four", "closed"):
    spend(f"map.{v}", Full=1, Start=v, Menu=["fin", "finw", "parts"], MaxStep=4 if v != "four" else 3, expect=["Finalize", "Finalize:no", "Insert:no"])
spend("map.two", Full=1, Start="two", Slots=[1, 3], Menu=["fin", "parts", "mixed"], MaxStep=5, expect=["Finalize", "Mixed:no"])
spend("map.same", Full=1, Start="same", Slots=[1, 2, 3], Menu=["fin", "parts"], MaxStep=4, expect=["Finalize", "Finalize:no"])
spend("map.again", Full=1, Start="spent", Slots=[1, 3], Variants=["good", "same", "twonull"], Menu=["init", "reinit"], MaxStep=1, expect=["Init:no"])
spend("map.next", Full=2, Start="two", Slots=[1, 3], Menu=["fin", "parts"], MaxStep=4, expect=["Finalize"])
spend("map.nextagain", Full=2, Start="spent", Slots=[1, 3], Variants=["good", "same", "twonull"], Menu=["init", "reinit"], MaxStep=1, expect=["Init:no"])
spend("retry", Start="inv", Menu=["fin", "init", "fee", "proof", "all"], MaxStep=6, expect=["Finalize", "Init", "Fee", "Proof", "Compute"])
spend("end", Start="two", Ptr0=TREE - 1, WFill0=128, Slots=[1, 3], Menu=["fin", "finw"], MaxStep=2)

# ------------------------------------------------------------------ nullifiers of a tree (Nullifiers.tla)
NULL_INV = ["Exact", "Once", "Count", "Sorted", "Filled", "Maxima", "Bound", "LookUp", "MaxKnown"]
NULL_PROPS = ["RefusedOnly", "MoveWorks", "NothingLost"]


def nulls(name, real=True, expect=(), **kw):
    c = dict(Per=65536, Accs=4, Cap=TREE, Moved=4, Fulls=0, Part=0, Menu=[], Probe=[], MaxStep=3)
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap", "extra") if k in kw}
    c.update(kw)
    return scenario("nulls." + name, "Nullifiers", "nulls", c, NULL_INV, NULL_PROPS, crate="core" if real else None, expect=expect, **opts)


# the design, with tiny maps: every order of insertions and moves
nulls("design3", real=False, Per=3, Accs=3, Cap=9, Moved=2, Menu=range(1, 10), MaxStep=30, expect=["Insert", "Insert:no", "Move"])
nulls("design4", real=False, Per=4, Accs=3, Cap=12, Moved=3, Menu=range(1, 13), MaxStep=40, expect=["Insert", "Insert:no", "Move"])
# the real size
NP = 65536
TOP = [a * 200000 + 2 * NP for a in range(4)]
nulls("first", Accs=2, Menu=[1, 2, 5, 9, 1000], Probe=[3, 4], MaxStep=5, expect=["Insert", "Insert:no", "Move:no"])
nulls("fill", Accs=2, Part=NP - 2, Menu=[1, TOP[0] - 5, TOP[0] - 1, TOP[0], 150000], Probe=[2, 4], MaxStep=5, expect=["Insert", "Insert:no", "Move"])
nulls("full1", Accs=2, Fulls=1, Menu=[1, 3, 30001, TOP[0] - 1, TOP[0] + 1, 200001], Probe=[2, TOP[0], 30000], MaxStep=4, expect=["Insert", "Move", "Insert:no"])
nulls("full2", Accs=3, Fulls=2, Part=3, Menu=[1, TOP[0] - 1, TOP[0] + 1, 250001, TOP[1] + 1, 400003], Probe=[2, TOP[0], TOP[1], 400002], MaxStep=4, expect=["Insert", "Move", "Insert:no"])
nulls("moved", extra={"Moves": True}, Accs=3, Fulls=2, Part=0, Menu=[1, TOP[0] - 1, TOP[0] + 1, TOP[1] + 1], Probe=[2, TOP[0], TOP[1], 400002], MaxStep=3, expect=["Insert", "Move", "Insert:no"])
nulls("full3", Accs=5, Fulls=3, Part=NP - 1, Menu=[1, 3, TOP[0] - 1, TOP[2] - 1, TOP[3] + 1], Probe=[2, 4], MaxStep=6, Moved=4, expect=["Insert", "Move"])
nulls("five", Accs=2, Fulls=1, Part=2, Menu=[1, 3, 5, 7, 9], Probe=[2, TOP[0]], MaxStep=6, expect=["Insert:no", "Move"])
nulls("last", Accs=16, Fulls=15, Part=NP - 2, Menu=[1, 1700001, 3000001 + 2 * NP, 3300001], Probe=[2, 3000000 + 2 * NP], MaxStep=18, expect=["Insert:no", "Move"])

for size, fill, order, steps in ((1, (0, 1), "asc", 4), (2, (0, 1, 2), "asc", 6), (3, (0, 1, 2, 3), "mixed", 8), (5, (0, 2, 5), "out", 6), (15, (13, 15), "zigzag", 3),
                                 (17, (15, 16, 17), "mixed", 2), (20, (19, 20), "asc", 2), (31, (15, 30, 31), "desc", 2), (33, (16, 31, 32, 33), "mixed", 2),
                                 (48, (47, 48), "out", 2), (64, (63, 64), "zigzag", 2)):
    scenario(f"map.{size}", "SortedMap", "map", dict(Size=size, Fill=fill, Order=order, MaxStep=steps), ["Bounded"], ["Smallest", "OustsOnlyIfFull"],
             expect=["Insert"] + (["Insert:no"] if size > 1 else []))

# ------------------------------------------------------------------ containers (Containers.tla)
def box(name, kind, head=0, expect=(), **kw):
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c = dict(Kind=kind, QCap=239, Win=128, Fill=0, Fvs=[0], Rates=[0], MaxBatch=4, MaxStep=4) | kw
    return scenario("box." + name, "Containers", "containers", c, ["Bounded", "Distinct", "BatchRight"], ["Fifo", "RefusedOnly"], extra={"Head": head}, expect=expect, **opts)


box("batch", "cqueue", Fvs=[0, 1], Rates=[0, 1, 2], MaxStep=4, expect=["Take", "Take:no", "Dequeue", "Remove:no"])
box("batch2", "cqueue", Fvs=[0], Rates=[0, 1, 2, 3], head=238, MaxStep=4, expect=["Take", "Take:no"])
box("batch4", "cqueue", Fvs=[0, 1], Rates=[0, 4], Fill=15, head=230, MaxStep=3, expect=["Take"])
for kind in ("cqueue", "mqueue"):
    for fill, head in ((0, 0), (0, 239), (2, 238), (237, 0), (238, 3), (239, 0), (239, 120), (100, 200)):
        box(f"{kind}.{fill}.{head}", kind, Fill=fill, head=head, MaxStep=4 if fill < 50 else 3, expect=["Enqueue", "Dequeue", "Remove", "Remove:no"] + (["Enqueue:no"] if fill > 236 else []))
for kind in ("cwin", "bwin"):
    for fill in (0, 1, 126, 127, 128, 129, 200, 256, 300):
        box(f"{kind}.{fill}", kind, Fill=fill, MaxStep=4 if kind == "bwin" or fill < 128 else 2, expect=["Insert", "Insert:no"] + (["Release"] if kind == "cwin" else []))

# ------------------------------------------------------------------ proof verification (Groth.tla)
def groth(name, cases, expect=("Prep", "Miller", "Final"), **kw):
    c = dict(Cases=cases, Slots=[1], Shapes=["five"], Menu=[], MaxStep=5)
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c.update(kw)
    return scenario("groth." + name, "Groth", "groth", c, ["Stages", "Honest"], ["Forever", "Alone", "RefusedOnly"], expect=expect, **opts)


for n in "valid lift windows digits dense wrong inputs shift infinity zeroL points fourteen windowsall".split():
    groth(n, [n])
groth("shapes", ["few"], Shapes=["five", "seven", "lone", "one"], Menu=["half"], MaxStep=7)
groth("shapes14", ["few14"], Shapes=["five", "seven", "lone"], Menu=["half"], MaxStep=8)
groth("order", ["few"], Shapes=["five", "seven", "one", "early"], Menu=["refuse"], MaxStep=6, expect=["Prep", "Miller", "Final", "Idle", "Over:no", "Other:no", "Proof:no", "Miller:no"])
groth("pairs", ["pairs"], Slots=[1, 2], Menu=["half"], MaxStep=12)

# ------------------------------------------------------------------ management of the verifying key (Vkey.tla)
def vkey(name, start, menu, count=1, expect=(), **kw):
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c = dict(Start=start, Packs={0: 38, 1: 588}[count], Menu=menu, By=[1, 2], Pos=[0], MaxStep=4) | kw
    return scenario("vkey." + name, "Vkey", "vkey", c, ["Sane"], ["FrozenStays", "InUse", "ByVersion", "OnlyAuthority", "RefusedOnly"], extra={"Count": count}, expect=expect, **opts)


EVERY = ["create", "new", "newbad", "write", "writebad", "update", "freeze", "auth", "use"]
for s0 in ("none", "one", "new", "cur", "both", "frozen", "free", "freeboth"):
    vkey(s0, s0, EVERY, By=[0, 1, 2, 3], Pos=[0, 1, 586, 587], MaxStep=2 if s0 not in ("none", "frozen") else 1)
vkey("life", "none", ["create", "new", "write", "update", "use"], By=[1], MaxStep=8, count=0, expect=["Create", "New", "Write", "Update", "Use", "Use:no", "Update:no"])
vkey("hands", "none", ["create", "new", "update", "freeze", "auth"], By=[1, 2], MaxStep=5, count=0, expect=["Freeze", "Authority", "Authority:no", "Freeze:no"])
vkey("packets", "new", ["write", "update"], By=[1], Pos=[0, 1, 300, 587], MaxStep=5, expect=["Write", "Update"])
vkey("packets2", "both", ["write", "update"], By=[1], Pos=[0, 586, 587], MaxStep=4, expect=["Write", "Update"])

CORE_TREE = ["core.pipe1", "core.roots", "core.roots0", "core.end", "core.child41955", "core.child293619", "core.rate1", "core.rate2h", "core.rate3h", "core.rate4h",
             "core.at1", "core.at511", "core.at512", "core.at4", "core.at24", "core.at112", "core.at524287"]

# ------------------------------------------------------------------ opening of accounts (Setup.tla)
def setup(name, start, menu, expect=(), **kw):
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c = dict(Start=start, Menu=menu, Parents=["storage", "metadata", "null0", "null1"], Slots=["0"], Accts=["s1"], Versions=[0, 1, 2], Schedules=[1],
             Trees=[0, 1], Vars=["good"], MaxStep=2) | kw
    return scenario("setup." + name, "Setup", "setup", c, ["Sane"], ["Stays", "Quiet", "RefusedOnly"], expect=expect, **opts)


ALLVARS = ["good", "first", "last", "swapped", "unsigned", "broke"]
ALLCHILDREN = ["s1", "s2", "m1", "m2", "n1", "n2"] + [k + x for k in "smn" for x in ("foreign", "poor", "short", "long", "used")]
setup("order", "none", ["open", "nulls", "fee", "never"], MaxStep=7, expect=["Single", "Single:no", "Later", "Later:no", "Governor", "Nullifier:no", "Fee", "Fee:no"])
setup("bad", "none", ["open", "nulls", "fee"], Vars=ALLVARS, Trees=[0], Versions=[0, 1], MaxStep=4)
setup("later", "single", ["open", "meanwhile"], MaxStep=5, expect=["Later", "Later:no", "Meanwhile"])
setup("fees", "single", ["fee", "meanwhile"], Schedules=list(range(1, 18)), MaxStep=3, expect=["Fee", "Fee:no"])
setup("accounts", "all", ["bind", "bindbad", "never"], Accts=ALLCHILDREN, Slots=["0", "top", "over", "over1", "over2", "huge"], MaxStep=1, expect=["Bind", "Bind:no"])
setup("closed", "single", ["bind", "open", "nulls"], Accts=["s1", "m1", "n1"], MaxStep=3)
setup("slots", "all", ["bind", "twice", "never"], Parents=["storage", "null0", "null1"], Accts=["s1", "n1", "n2"], Slots=["0", "1", "top"], MaxStep=3, expect=["Bind", "Bind:no", "Twice:no", "Over:no"])
setup("sets", "all", ["bind"], Parents=["null0", "null1"], Accts=["n1", "n2", "n3"], Slots=["0", "1"], MaxStep=3)
setup("meta", "all", ["bind", "twice"], Parents=["metadata", "storage"], Accts=["m1", "m2", "s1", "s2"], Slots=["0", "top"], MaxStep=4)

# ------------------------------------------------------------------ the warden network
def warden(name, expect=(), **kw):
    c = dict(Base=0, Max=512, Menu=[], By=[0, 1, 2, 3], Keys=[1, 2, 3], Confs=[1, 2], Start="empty", MaxTime=0, MaxStep=2)
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c.update(kw)
    return scenario("warden." + name, "Wardens", "warden", c, ["Identities", "Times"],
                    ["RefusedChangesNothing", "NeverForgotten", "OneRecord", "OwnerOnly"], crate="warden", expect=expect, **opts)


warden("register", Menu=["reg"], MaxStep=4, Confs=[1, 2, 5], Keys=[1, 2, 3, 4], By=[0, 1, 2, 3, 4], expect=["Register", "Register:no"])
warden("places", Menu=["regplain", "wait"], MaxStep=3, MaxTime=2, Confs=[1, 2, 3, 4], By=[1, 2, 3], expect=["Register"])
warden("forged", Menu=["regacc", "init", "close"], MaxStep=2, By=[0, 1, 2], expect=["Register", "Register:no", "Init:no", "Close:no"])
warden("limit", Menu=["reg"], Base=509, MaxStep=4, By=[1, 2, 3, 4], Keys=[1, 2, 3, 4], Confs=[2], expect=["Register", "Register:no"])
warden("own", Start="two", Menu=["state", "wait"], MaxTime=2, MaxStep=3, By=[0, 1, 2, 3, 9], expect=["State", "State:no"])
warden("lut", Start="two", Menu=["lut", "state"], MaxStep=2, By=[0, 1, 2, 3], expect=["Lut", "Lut:no"])
warden("operators", Start="attesters", Menu=["op", "conf"], MaxStep=3, By=[0, 1, 2, 3], expect=["Operator", "Operator:no", "Confirm", "Confirm:no"])
warden("mixed", Start="two", Menu=["regplain", "state", "lut", "conf", "op", "attest1", "wait"], MaxTime=1, MaxStep=2, By=[0, 1, 2, 3], expect=["Register", "State", "Lut", "Confirm"])
warden("appoint", Start="two", Menu=["appoint", "revoke", "state"], MaxStep=3, By=[0, 1, 2, 3, 9, 90], expect=["Appoint", "Appoint:no", "Revoke", "Revoke:no"])
warden("attest", Start="attester", Menu=["attest"], MaxStep=2, By=[0, 1, 2, 9], expect=["Attest", "Attest:no"])
warden("attest3", Start="attesters", Menu=["attest1", "revoke", "state"], MaxStep=2, By=[1, 2, 3, 9], expect=["Attest", "Attest:no", "Revoke"])
warden("attestacc", Start="attester", Menu=["attestacc", "attest"], MaxStep=1, By=[0, 1, 2, 9], expect=["Attest:no"])


def stats(name, expect=(), **kw):
    c = dict(Years=[2023], Left=99, Full="both", Menu=[], Days=[0], Tags=[2], MaxStep=1)
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c.update(kw)
    return scenario("stats." + name, "WardenStats", "stats", c, ["OneEach", "Dated", "Calendar"], ["OneCount", "RefusedChangesNothing"], crate="warden", expect=expect, **opts)


FIRST = lambda y: 365 * (y - 1970) + len([z for z in range(1970, y) if z % 4 == 0])
stats("tags", Menu=["tags"], Tags=range(0, 256), expect=["Track", "Track:no"])
stats("prevs", Menu=["prevs"], expect=["Track", "Track:no"])
stats("places", Menu=["places", "idle"], MaxStep=2, expect=["Track", "Track:no"])
stats("whose", Menu=["whose"], Years=[2023, 2024], MaxStep=2, expect=["Track", "Track:no"])
stats("years", Menu=["years"], Years=range(2000, 2100), expect=["Track"])
stats("wrongyear", Menu=["wrongyear"], Years=[1980, 1999, 2000, 2001, 2004, 2023, 2024, 2099, 2100], expect=["Track", "Track:no"])
stats("work", Menu=["work", "idle"], Years=[2023, 2024], Days=[0, 1, 364], MaxStep=3, expect=["Track", "Track:no"])
stats("leap", Menu=["work"], Years=[2024], Days=[59, 364, 365], MaxStep=3, expect=["Track"])
for f in ("total", "day", "both"):
    stats("full." + f, Menu=["work", "idle"], Left=2, Full=f, Days=[0, 7], MaxStep=4, expect=["Track", "Track:no"])
stats("open", Menu=["open", "work"], MaxStep=2, expect=["Open", "Open:no", "Track"])
stats("calendar", Menu=["all"], Years=[2000, 2003, 2096, 2099], Days=[d for y in (2000, 2003, 2096, 2099) for d in range(FIRST(y), FIRST(y + 1))], expect=["Track"])
for j in range(5):
    ys = range(2000 + 20 * j, 2020 + 20 * j)
    stats(f"calendar{j}", Menu=["all"], Years=ys, Days=[d for y in ys for d in range(FIRST(y), FIRST(y + 1))], expect=["Track"], heap="6g")


def apa(name, expect=(), **kw):
    c = dict(Wardens=8, Menu=[], By=[1, 2, 3], Start="empty", Quotes=[1], XKeys=[1], MaxStep=3)
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c.update(kw)
    return scenario("apa." + name, "ApaNetwork", "apa", c, ["Distinct", "ConfirmedLate"], ["Stays", "Forward", "RefusedChangesNothing"], crate="warden", expect=expect, **opts)


apa("apply", Menu=["apply", "complete"], By=[2, 3, 4], Quotes=[1, 2], XKeys=[1, 2], MaxStep=3, expect=["Apply", "Apply:no", "Complete", "Complete:no"])
apa("bad", Start="four", Menu=["applybad", "completebad"], By=[0, 1, 2, 5, 7, 9], MaxStep=1, expect=["Apply", "Apply:no", "Complete", "Complete:no"])
apa("order", Menu=["apply", "complete"], By=[1, 2, 3, 4, 5, 6], MaxStep=12, simulate=(60, 14), expect=["Apply", "Complete"])
apa("end", Start="five", Menu=["apply", "complete", "confirm"], By=[1, 2, 7, 8, 5], Quotes=[1, 2], MaxStep=3, expect=["Apply", "Complete", "Complete:no", "Confirm:no"])
apa("six", Start="six", Menu=["complete", "apply", "confirm"], By=[2, 3, 4, 5, 6, 7, 1], MaxStep=7, expect=["Complete", "Apply:no", "Confirm", "Confirm:no"])
apa("last", Start="last", Menu=["complete", "apply", "messages", "completebad"], By=[0, 1, 2, 5], Quotes=[2], MaxStep=2, expect=["Complete", "Confirm", "Confirm:no"])
apa("confirm", Start="full", Menu=["confirm", "complete", "apply"], By=[1, 2, 5], MaxStep=7, expect=["Confirm", "Confirm:no", "Complete:no", "Apply:no"])
apa("wrong", Start="full", Menu=["confirmbad", "messages"], MaxStep=2, expect=["Confirm", "Confirm:no"])
apa("shared", Start="shared", Menu=["confirmbad", "confirm"], MaxStep=2, expect=["Confirm", "Confirm:no"])
apa("done", Start="confirming", Menu=["confirmbad", "messages", "complete", "apply", "completebad"], By=[0, 1, 7, 6], MaxStep=3, expect=["Confirm", "Confirm:no"])
apa("after", Start="confirmed", Menu=["confirmbad", "messages", "complete", "apply", "completebad", "applybad"], By=[0, 1, 7, 8], MaxStep=1, expect=["Confirm:no"])
apa("long", Menu=["apply", "complete", "confirm"], By=[1, 2, 3, 4, 5, 6, 7], Quotes=[1, 2], XKeys=[1, 2, 3], MaxStep=20, simulate=(400, 24), expect=["Apply", "Complete"])


def prop(name, f=(1, 0, 2), expect=(), **kw):
    c = dict(NTok=11, F1=f[0], F2=f[1], F3=f[2], Menu=[], By=[0, 1, 2], MaxTime=0, MaxStep=2)
    extra = dict(Base=kw.pop("Base", 0), Freeze=[f[min(t, 3) - 1] for t in range(1, 12)])
    opts = {k: kw.pop(k) for k in ("simulate", "timeout", "heap") if k in kw}
    c.update(kw)
    return scenario("proposals." + name, "Proposals", "proposals", c, ["Authorised"], ["NeverOverwritten", "Attributed", "RefusedChangesNothing"], crate="warden", extra=extra, expect=expect, **opts)


prop("plain", Menu=["plain", "wait"], MaxTime=1, MaxStep=2, expect=["Propose", "Propose:no"])
prop("ids", Menu=["ids"], MaxStep=4, expect=["Propose", "Propose:no"])
prop("roles", Menu=["roles"], MaxStep=1, expect=["Propose", "Propose:no"])
prop("roles2", f=(2, 1, 99), Menu=["roles"], MaxStep=1, expect=["Propose", "Propose:no"])
prop("freeze", f=(1, 2, 0), Menu=["freeze", "plain"], MaxStep=2, expect=["Propose", "Propose:no"])

# ------------------------------------------------------------------ the accounts of instructions (Accounts.tla)
KNOWN_ACCOUNTS = """pool collector queue mqueue hashing storage metadata basebuffer buffer governor fee0 fee1 basehash0 basehash1 basehash2 vkey0 vkey1 null0 null1 null2
null3 nchild0 nchild1 nchild2 schild0 schild1 schild24 mchild0 mchild1 system splprogram ataprogram log price0 price1 price2 mint1 mint2 poolvault1 poolvault2 collvault1
collvault2 sender sender/1 sender/2 warden-1 warden-1/1 warden-2 warden-2/1 payer-1 payer-1/1 payer-1/2 payer-2 payer-2/1 recipient recipient/1 recipient-token-account admin stranger
spend-payer-1 spend1-payer-1 spend-payer-2 vkey-data vkey-data-1 vkey-data-2 vkey-person-1 setup-child-s1 setup-child-s2 setup-child-m2 setup-child-n2""".split()


def forge(name, menu, lives=(), **kw):
    return scenario("forge." + name, "Accounts", "forge", dict(Menu=menu, Lives=list(lives), Subs=KNOWN_ACCOUNTS) | kw, [], ["NeverForged"], **({"expect": ["Good"]} if menu == ["good"] else {}))


forge("good", ["good"])
forge("signers", ["unsigned"])
forge("swap", ["swap"])
forge("short", ["short"])
forge("others", ["forge"])

FEEPROPS = ["Covered", "Charged", "FeeCovers", "Close", "SettleExact"]


def fees(name, menu, seeds=(0,), expect=(), **kw):
    return scenario("fees." + name, "Fees", "fees", dict(Menu=menu, Seeds=list(seeds)), [], FEEPROPS, expect=expect, **kw)


fees("native", ["native"], expect=["Deposit", "Deposit:no"])
fees("rules", ["amount", "version", "settle"], expect=["Deposit(amount)", "Deposit(amount):no", "Version", "Version:no", "Settle", "Settle:no"])
fees("tokens", ["tokens", "tsched"], expect=["Deposit(token)", "Deposit(token):no", "Deposit(tsched)", "Deposit(tsched):no"])
fees("spend", ["fee", "feeamt"], expect=["Fee(native)", "Fee(native):no", "Fee(amount)", "Fee(amount):no"])
fees("spendtok", ["feetok"], expect=["Fee(token)", "Fee(token):no"])
fees("ata", ["feeata"], expect=["Fee(ata)", "Fee(ata):no"])
fees("random", ["random"], range(1, 401), expect=["Deposit(random)", "Deposit(random):no", "Fee(random)", "Fee(random):no"])
for j in range(6):
    fees(f"random{j}", ["random"], range(1000 + 4000 * j, 5000 + 4000 * j), timeout=3000)

PROPS["P01"] = dict(quick=["fees.rules", "core.adm.empty", "core.adm.127", "core.adm.128", "core.adm.129", "core.adm.200", "core.adm.idx", "core.window", "core.upgrade"],
                    match=["Deposit*/accepted", "Deposit*/refused", "Deposit*/window*", "Deposit*/dep.*"])
PROPS["P02"] = dict(quick=["core.pipe", "core.pipeself", "core.adm.200", "core.upgrade", "core.rate1", "core.rate3", "fees.native", "fees.tokens", "fees.rules"],
                    match=["Deposit*/money.*", "ComputeBase/*", "*/dep.*", "FinalizeBase/*", "ComputeHash/*", "!ComputeHash/hs.*", "Deposit/unreadable", "*/gov"])
PROPS["P04"] = dict(quick=["core.pipe", "core.pipe2q", "core.wrap", "core.roots", "core.end", "core.rate2", "core.upgrade1", "core.endfull", "core.rate4h"],
                    match=["*/queue*", "*/leaf", "*/hs.batch*", "InitHash/*", "FinalizeHash/*", "FinalizeBase/refused", "ComputeHash/refused", "*/ptr", "*/dep.hash"])
PROPS["P05"] = dict(quick=CORE_TREE, thorough=["core.at131071", "core.at1000000", "core.child125843", "core.child293631", "core.rate2", "core.rate3", "core.rate4", "core.rate1h"], match=["*/root", "*/node", "*/leaf", "*/ptr", "*/history", "*/hs.*", "FinalizeHash/*", "ComputeHash/refused", "ComputeHash/accepted", "Setup/*", "*/nroots"])
PROPS["P14"] = dict(quick=["core.pipe", "core.pipe2q", "core.wrap", "core.child65535", "core.rate2", "core.endmeta", "core.endmeta2"], known=["F-META"],
                    match=["*/mqueue*", "*/meta*"])
PROPS["P16"] = dict(quick=["core.end", "core.end2", "core.endempty", "core.endfull", "core.rate1end", "core.roots"],
                    match=["Reset/*", "*/closed*", "*/open*", "*/trees", "InitHash/accepted", "InitHash/refused"])

ADM = [n for n in SCENARIOS if n.startswith("spend.adm.")]
FIN = [n for n in SCENARIOS if n.startswith("spend.fin.")]
BADS = [n for n in SCENARIOS if n.startswith("spend.bad.")]
PAIR = [n for n in SCENARIOS if n.startswith("spend.pair.")]
NULLSC = [n for n in SCENARIOS if n.startswith("spend.null.")]
AGAIN = [n for n in SCENARIOS if n.startswith("spend.again.")]

PROPS["P03"] = dict(quick=["core.pipe", "core.pipeself", "core.adm.200", "core.rate2", "core.upgrade", "spend.fees", "spend.stagestok", "spend.retry", "spend.pair.two", "spend.pair.sps", "spend.pair.atas", "spend.rate2", "spend.upgrade3",
                           "spend.pair.twobad", "spend.again.good", "spend.again.inv"]
                    + [f"spend.{k}.{v}" for k in ("fin", "bad") for v in ("good", "token", "ata", "merge", "topt", "opt1", "topt1", "spopt", "tspopt", "atasp", "more", "badacc", "self", "topool", "ttopool", "optpool")],
                    thorough=FIN + BADS + PAIR + AGAIN, match=["*/money.*", "Finalize(xfer-*)/*", "Finalize(pay-*)/*", "Xfer*/accepted", "Mixed*/accepted", "Again*/accepted"])
PROPS["P06"] = dict(quick=ADM + ["spend.null.spentclosed", "core.end", "core.end2", "core.roots"], known=["F-FUTURE-ROOT"],
                    match=["Init(root.*)/*", "Init(good)/*", "Init(good2)/*", "Init(closed)/*", "Init(null.trees)/*", "Init(null.closed)/*", "Init*/slot.trees", "*/history", "*/nroots", "Reset/*", "*/closed.root", "*/open.root"])
PROPS["P07"] = dict(quick=NULLSC + PAIR + AGAIN + ["spend.fin.good", "spend.fin.twonull", "spend.fin.closed", "spend.fin.four", "spend.adm.105", "spend.retry"],
                    match=["*/nullifiers*", "*/marker", "Init(null.*)/*", "Init(same)/*", "Init(swapped)/*", "Init(twonull)/*", "Init(closed)/*", "Init(good)/*", "Reinit*/*", "Finalize*/accepted", "Finalize*/refused",
                           "Mixed*/*", "Again*/*", "Insert*/*", "Send*/*", "Xfer*/accepted"])
PROPS["P08"] = dict(quick=[n for n in SCENARIOS if n.startswith("map.") or n.startswith("nulls.") and n != "nulls.design4"] + ["spend.null.spent", "spend.fin.twonull", "spend.pair.same"]
                    + [n for n in SCENARIOS if n.startswith("spend.map.")],
                    thorough=["nulls.design4"], match=["Insert/*", "Move/*", "*/lookup", "*/map.*", "*/ousted", "*/count", "*/pending", "*/nullifiers*", "Start/*"])
PROPS["P10"] = dict(quick=["spend.stages", "spend.stagestok", "spend.fees", "spend.fin.good", "spend.fin.sp", "spend.fin.token", "spend.bad.good", "spend.null.pre", "spend.index", "spend.upgrade"] + PAIR + AGAIN,
                    match=["*/slot.*", "Fee*/*", "InitFee*/accepted", "InitFee*/refused", "Proof*/*", "Compute*/*", "Finalize(xfer-*)/*", "Finalize(no-*)/*", "Finalize(less-insert)/*", "Finalize(one-more*)/*", "Finalize(gap)/*",
                           "Finalize(twice)/*", "Finalize*/refused", "Finalize(cpi-*)/*", "Send*/*", "Insert*/*", "Xfer*/*", "Closed*/*", "Reinit*/*", "Mixed*/*", "Again*/*"])
PROPS["P11"] = dict(quick=FIN + ["spend.fees", "spend.pair.two", "spend.pair.sps", "spend.pair.atas", "spend.rate1", "spend.rate4", "spend.upgrade2", "spend.upgrade3", "spend.stages", "spend.stagestok", "spend.again.sp"],
                    match=["Finalize*/money.*", "Finalize*/accepted", "Finalize*/refused", "Finalize*/ata", "Send*/*", "Xfer*/*", "Fee*/*", "InitFee*/*", "Mixed*/*", "Again*/*", "*/slot.recipient", "*/slot.signal"])
PROPS["P12"] = dict(quick=BADS + ["spend.rate1bad", "spend.rate4bad", "spend.pair.atabad", "spend.pair.twobad", "spend.pair.samebad", "spend.again.inv", "spend.retry"],
                    match=["*/*"])
PROPS["P13"] = dict(quick=["spend.window", "spend.full.238", "spend.full.239", "spend.end", "spend.pair.two", "spend.pair.same", "spend.stages", "spend.null.pre",
                           "spend.fin.good", "spend.fin.twonull", "spend.fin.four", "spend.fin.token", "spend.fin.merge", "spend.fin.memo", "spend.fin.sp", "spend.fin.zmeta", "spend.fin.tzmeta", "spend.rate2", "spend.upgrade2", "spend.upgrade3"] + ADM,
                    match=["*/queue.*", "*/mqueue.*", "*/window.*", "Init(good)/*", "Init(adm.out*)/*", "Init(adm.future)/*", "Init(adm.rec*)/*", "Init(adm.back*)/*", "Finalize(send-ci*)/*", "Finalize(send-mt*)/*",
                           "Finalize(twice)/*", "Finalize(xfer-twice)/*", "Finalize(good*)/*", "Finalize*/refused", "Mixed*/*", "Xfer*/*", "Send*/*"])

PROPS["P09"] = dict(quick=[n for n in SCENARIOS if n.startswith("groth.") and n not in ("groth.windowsall", "groth.shapes14")] + ["spend.stages"] + [f"spend.fin.{v}" for v in "good token ata merge opt twonull four closed memo sp zmeta".split()],
                    thorough=["groth.windowsall", "groth.shapes14"], match=["*/verdict", "*/stage", "*/proof", "*/input", "*/key", "Prep/*", "Miller/*", "Final/*", "Idle/*", "Over/*", "Other/*", "Compute*/*", "Proof*/*", "*/slot.verdict", "*/slot.signal*", "*/slot.progress"])
PROPS["P15"] = dict(quick=[n for n in SCENARIOS if n.startswith("box.")] + ["core.wrap", "core.wrap2", "core.window", "core.adm.127", "core.adm.128", "spend.window", "spend.adm.100", "spend.adm.101", "spend.full.239"],
                    match=["*/queue*", "*/batch*", "*/dequeued", "*/window*", "*/mqueue*", "Enqueue/*", "Dequeue/*", "Remove/*", "Take/*", "Insert/*", "Release/*", "FinalizeBase/refused", "InitHash/*", "Deposit(last)/*", "Deposit(oldest)/*", "Deposit(left)/*"])

PROPS["P20"] = dict(quick=["fees.native", "fees.rules", "fees.tokens", "fees.spend", "fees.spendtok", "fees.ata", "fees.random", "setup.fees", "spend.adm.105", "spend.fees", "core.adm.empty"],
                    thorough=[f"fees.random{j}" for j in range(6)],
                    match=["Deposit*/money.*", "Deposit*/accepted", "Deposit*/refused", "Fee*/money.*", "Fee*/accepted", "Fee*/refused", "Deposit*/unreadable", "Fee*/unreadable", "*/kept.*", "*/kind", "Settle/*", "Version/*", "Init(adm.*wrap)/*"])
PROPS["P19"] = dict(quick=[n for n in SCENARIOS if n.startswith("forge.")], match=["*/accepted"])
PROPS["P18"] = dict(quick=[n for n in SCENARIOS if n.startswith("setup.")],
                    match=["*/*", "Init/setup"])
PROPS["P17"] = dict(quick=[n for n in SCENARIOS if n.startswith("vkey.")] + ["groth.order", "spend.adm.105"],
                    match=["Create/*", "New/*", "Write/*", "Update/*", "Freeze/*", "Authority/*", "Use/*", "*/key.*", "*/data.*", "*/money", "Start/*", "Init/setup", "Other/*", "Init(adm.vkey)/*"])

W = lambda p: [n for n in SCENARIOS if n.startswith(p)]
PROPS["W01"] = dict(quick=["warden.register", "warden.places", "warden.forged", "warden.limit", "warden.mixed"],
                    match=["Register*/*", "Init/*", "Close/*", "*/next", "*/map", "*/list.id", "*/list.count", "*/list.features", "*/list.tokens", "*/list.size", "*/others", "*/accounts*", "*/record.here", "*/record.join"])
PROPS["W02"] = dict(quick=["warden.own", "warden.lut", "warden.operators", "warden.mixed", "warden.attest3"],
                    match=["State/*", "Lut/*", "Operator/*", "Confirm/*", "*/record.active", "*/record.lut", "*/record.operator", "*/operator.*", "*/others"])
PROPS["W03"] = dict(quick=[n for n in W("stats.") if not n[-1].isdigit()], thorough=[f"stats.calendar{j}" for j in range(5)], match=["*/*"])
PROPS["W04"] = dict(quick=[n for n in W("apa.") if n != "apa.long"], thorough=["apa.long"], match=["*/*"])
PROPS["W05"] = dict(quick=W("proposals."), match=["*/*"])
PROPS["W06"] = dict(quick=["warden.appoint", "warden.attest", "warden.attest3", "warden.attestacc", "warden.mixed", "warden.register"],
                    match=["Appoint/*", "Revoke/*", "Attest/*", "*/record.attestation", "*/record.metadata", "*/list.region", "*/attester"])

# ------------------------------------------------------------------ long random histories (only in the thorough runs)
def longer(props, *names):
    for p in props.split():
        PROPS[p].setdefault("thorough", [])
        PROPS[p]["thorough"] = list(PROPS[p]["thorough"]) + [n for n in names if n not in PROPS[p]["quick"] and n not in PROPS[p]["thorough"]]


LONG = dict(timeout=3000)
longer("P01 P02 P03 P04 P05 P14 P15",
       core("long", MaxDep=6, MaxStep=60, Idx=[1, 2, 3], Variants=["good", "token", "last", "oldest", "left", "future", "max", "tmin", "prev", "notoken"], Refusals=False, simulate=(100, 62), **LONG),
       core("long1", MaxDep=6, MaxStep=60, Idx=[1, 2], QFill0=5, Ptr0=96, WFill0=40, Rate=1, Variants=["good", "token", "last", "fv", "rate"], simulate=(60, 62), **LONG),
       core("long3", MaxDep=6, MaxStep=60, Idx=[1, 2], QFill0=27, Ptr0=776, WFill0=40, Rate=3, Variants=["good", "token", "self"], simulate=(40, 62), **LONG),
       core("longwrap", MaxDep=6, MaxStep=60, Idx=[1, 2, 3], QFill0=236, Ptr0=4000, WFill0=126, Variants=["good", "token", "last", "oldest"], extra={"Head": 200}, simulate=(60, 62), **LONG),
       core("longup", MaxDep=6, MaxStep=60, Idx=[1, 2, 3], QFill0=2, Ptr0=48, WFill0=40, Upgrades=True, Variants=["good", "fv", "rate", "token"], simulate=(60, 62), **LONG))
longer("P04 P05 P06 P16", core("longend", QFill0=9, Ptr0=TREE - 6, Meta0=17, MaxStep=70, MaxDep=2, Idx=[1, 2], Refusals=False, simulate=(60, 72), **LONG))
SPENDMENU = ["initfee", "init", "reinit", "fee", "proof", "all", "compute", "fin", "parts", "mixed", "closed"]
longer("P03 P06 P07 P10 P11 P12 P13 P20",
       spend("long", Slots=[1, 2, 3], Variants=["good", "same", "good2", "twonull", "token", "sp", "merge", "ata", "opt"], Menu=SPENDMENU, MaxStep=16, simulate=(120, 18), **LONG),
       spend("longbad", Pk="bad", Slots=[1, 2, 3], Variants=["good", "same", "twonull", "token", "sp", "tmerge", "ata", "topt"], Menu=SPENDMENU, MaxStep=16, simulate=(120, 18), **LONG),
       spend("longup", Slots=[1, 2, 3], Variants=["good", "v1", "token", "tv1", "same", "sp"], Menu=SPENDMENU + ["upgrade"], MaxStep=16, simulate=(120, 18), **LONG),
       spend("longfull", Start="two", QFill0=237, Slots=[1, 2, 3], Variants=["good", "same", "good2", "token"], Menu=SPENDMENU, MaxStep=16, simulate=(100, 18), **LONG))
longer("P07 P08",
       spend("map.long", Full=1, Start="two", Slots=[1, 2, 3], Variants=["good", "same", "twonull", "good2"], Menu=SPENDMENU, MaxStep=14, simulate=(80, 16), **LONG))
longer("P08",
       nulls("long", Accs=4, Fulls=2, Part=NP - 3, Menu=[1, 7, TOP[0] - 1, TOP[0] + 1, TOP[1] - 1, TOP[1] + 1, TOP[2] - 1, 700001, 250001], Probe=[2, TOP[0], TOP[1]], MaxStep=24, simulate=(60, 26), **LONG),
       nulls("longdesign", real=False, Per=5, Accs=4, Cap=20, Moved=4, Menu=range(1, 21), MaxStep=90, simulate=(20000, 92), **LONG))
for kind in ("cqueue", "mqueue", "cwin", "bwin"):
    longer("P15", box(f"{kind}.long", kind, Fill=120 if kind[1:] == "win" else 200, head=170, MaxStep=60, simulate=(60, 62), **LONG))
longer("P15", box("batch.long", "cqueue", Fvs=[0, 1], Rates=[0, 1, 2, 3], Fill=20, head=225, MaxStep=60, simulate=(200, 62), **LONG))
longer("P09 P10", groth("long", ["pairs"], Slots=[1, 2], Shapes=["five", "seven", "lone"], Menu=["half", "refuse"], MaxStep=16, simulate=(60, 18), **LONG))
longer("P17",
       vkey("long", "none", EVERY, By=[0, 1, 2, 3], Pos=[0, 1, 586, 587], MaxStep=24, simulate=(300, 26), **LONG),
       vkey("long0", "one", ["create", "new", "write", "update", "freeze", "auth", "use"], By=[0, 1, 2], count=0, MaxStep=24, simulate=(300, 26), **LONG))
longer("P18",
       setup("long", "none", ["open", "nulls", "fee", "bind", "bindbad", "twice", "meanwhile", "never"], Accts=["s1", "s2", "m1", "n1", "n2", "sused", "nshort"], Slots=["0", "1", "top"], MaxStep=24, simulate=(200, 26), **LONG),
       setup("longall", "all", ["nulls", "fee", "bind", "twice", "meanwhile"], Accts=["s1", "s2", "m1", "m2", "n1", "n2"], Slots=["0", "1", "top"], Schedules=[1, 2, 3], MaxStep=20, simulate=(200, 22), **LONG))
WARDENMENU = ["regplain", "state", "lut", "op", "conf", "appoint", "revoke", "attest1", "wait"]
longer("W01 W02 W06",
       warden("long", Menu=WARDENMENU, MaxTime=3, MaxStep=20, By=[0, 1, 2, 3, 9, 90], simulate=(300, 22), **LONG),
       warden("longtwo", Start="two", Menu=WARDENMENU, MaxTime=3, MaxStep=20, By=[0, 1, 2, 3, 9, 90], simulate=(300, 22), **LONG),
       warden("longnet", Start="attesters", Menu=WARDENMENU + ["attest"], MaxTime=3, MaxStep=20, By=[0, 1, 2, 3, 9], simulate=(300, 22), **LONG))
longer("W03", stats("long", Menu=["work", "idle", "whose", "open"], Years=[2023, 2024], Days=[0, 58, 59, 364, 365], Left=5, MaxStep=20, simulate=(300, 22), **LONG))
longer("W05", prop("long", f=(1, 2, 0), Menu=["plain", "ids", "freeze", "wait"], MaxTime=3, MaxStep=12, simulate=(300, 14), **LONG))

# a set-up consists of steps these properties are about (for the others, a failing set-up is no answer)
for _p in ("P01", "P02", "P04", "P06", "P08", "P10", "P11", "P13", "P15", "P16", "P17", "P18", "P20", "W01", "W02", "W03", "W04", "W05", "W06"):
    PROPS[_p]["match"] = PROPS[_p]["match"] + ["Init/setup"]

NOT_APPLICABLE = {}
