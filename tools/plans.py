"""What each check runs."""
import os
from vlib import *

TRACE = "common/trace.go"
FIND = "common/find.go"
SKETCH = "common/sketch.go"
STAT = "common/report.go"


# ---------------------------------------------------------------- riblt
def riblt_drv(x):
    return x.build("riblt", ["riblt/main.go", TRACE], "zz_verif_riblt")


def riblt_traces(x, drv, kinds, need=()):
    """kinds: {kind: (quick sessions, thorough sessions)}"""
    jobs, files = [], []
    for k, (q, t) in kinds.items():
        n = q if x.quick else t
        parts = {"density": 1, "far": 1, "big": 8}.get(k) or min(8, max(1, n // 50))
        for i in range(parts):
            out = x.path("riblt-%s.ndjson" % k)
            jobs.append((drv, ["-kind", k, "-n", max(1, n // parts), "-bits", 33 if x.quick else 35, "-seed", x.seed * 100 + i, "-out", out], None))
            files.append(("riblt-" + k, out))
    x.drive_many(jobs)
    x.traces("RibltTrace", files, need=need)


RIBLT_INV = ["Sound", "ExactWhenDecoded", "CellsAreResiduals", "ClosureWhenIdle", "IncrementalClosure", "DecodedExact",
             "PendingNonNegative", "Linear", "EqualSetsEqualStream"]


def riblt_design(x, deep=True):
    if x.quick or not deep:
        c = {"Sym": "{1,2,3}", "M": 3}
    else:
        c = {"Sym": "{1,2,3}", "M": 4}
    x.design("Riblt", consts=c, invariants=RIBLT_INV, properties=["Monotone", "Terminates"] if x.quick else ["Monotone"], timeout=3000)
    x.assumptions.append("checksums identify sets of symbols (64-bit hash collisions are not explored)")


def riblt_replay(x, drv):
    consts = {"Sym": "{1,2,3}", "M": 3 if x.quick else 4}
    f, n = x.generate("RibltGen", spec="GSpec", consts=consts, invariants=["Emit"], timeout=3000)
    out = x.path("replay.ndjson")
    txt = x.drive(drv, ["-kind", "replay", "-in", f, "-out", out, "-seed", x.seed], timeout=1200)
    m = re.search(r"REPLAYED behaviours=(\d+) steps=(\d+)", txt)
    if os.path.getsize(out):
        x.traces("RibltTrace", [("riblt-replay", out)])
    if not m or int(m.group(1)) < min(500, n // 2):
        return x.doubt("behaviours could not be replayed: " + txt)
    x.cov["replayed_behaviours"] += int(m.group(1))
    x.cov["traces_validated_against_impl"] += int(m.group(1))
    x.log(txt.strip())


def c01(x):
    d = riblt_drv(x); riblt_design(x); riblt_replay(x, d)
    riblt_traces(x, d, {"recon": (400, 4000), "overhead": (100, 600), "big": (8, 80)}, need=("dt", "ovh", "bigdec"))


def c02(x):
    d = riblt_drv(x); riblt_design(x); riblt_replay(x, d)
    riblt_traces(x, d, {"recon": (400, 4000), "overhead": (200, 1000), "big": (8, 80)}, need=("dt", "ovh", "bigdec"))


def c03(x):
    d = riblt_drv(x); riblt_design(x, False)
    riblt_traces(x, d, {"stream": (500, 5000), "big": (8, 80)}, need=("ep", "sd", "bigsk", "biglin"))


def c04(x):
    d = riblt_drv(x); riblt_design(x, False)
    riblt_traces(x, d, {"sketch": (600, 6000), "big": (8, 80)}, need=("ss", "sx", "bigskdec"))


def c05(x):
    d = riblt_drv(x); riblt_design(x, False)
    riblt_traces(x, d, {"hash": (150, 1500), "density": (1, 1), "far": (1, 1)}, need=("map", "density", "densfar"))


def c06(x):
    d = riblt_drv(x); riblt_design(x, False)
    riblt_traces(x, d, {"reset": (300, 3000)}, need=("er", "dr"))


# ------------------------------------------------------------------- lt
LT_SUBST = [(r"[^\n]*only lt\n", ""), (r"\blt\.", "iblt."), (r"reconcile/lt\"", "reconcile/iblt\""),
            (r"ltC", "ibltC"), (r"ltE", "ibltE"), (r"ltD", "ibltD"), (r"ltF", "ibltF"), (r"ltR", "ibltR"), (r"ltS", "ibltS"),
            (r"\"lt\"", "\"iblt\"")]
LT_PTR = [(r"\b(ib|)lt([CEDFRS])", r"\1ltp\2"), (r"\bpayload\b", "*ppayload"), (r"\btoPayload\b", "topPayload"), (r"\bpl(Words|Owned)\b", r"ppl\1")]


def lt_drv(x):
    """the adapter of package iblt is the one of package lt, renamed; so are those for data held by pointer"""
    h = os.path.join(VERIF, "harness", "lt")
    txt = open(os.path.join(h, "adapter_lt.go")).read()
    d = os.path.join(REPO, "zz_verif_lt")
    repl = {os.path.join(d, "trace.go"): os.path.join(VERIF, "harness", TRACE)}
    for name, substs in (("iblt", [LT_SUBST]), ("ltp", [LT_PTR]), ("ibltp", [LT_SUBST, LT_PTR])):
        g = txt
        for subst in substs:
            for a, b in subst:
                g = re.sub(a, b, g)
        p = x.path("adapter_%s.go" % name)
        open(p, "w").write(g)
        repl[os.path.join(d, "adapter_%s.go" % name)] = p
    for f in ("main.go", "adapter_lt.go", "adapter_ldpc.go"):
        repl[os.path.join(d, f)] = os.path.join(h, f)
    return x.build_overlay("lt", repl, "zz_verif_lt")


def lt_traces(x, drv, kinds, codecs=("lt", "iblt", "ldpc"), need=(), exh=None):
    """kinds: {kind: (quick, thorough) sessions per codec}; exh: (tx, depth, mem) thorough only"""
    jobs, files = [], []
    for codec in codecs:
        for k, (q, t) in kinds.items():
            n = q if x.quick else t
            parts = min(8, max(1, n // (3 if k.startswith("big") else 60)))
            for i in range(parts):
                out = x.path("lt-%s-%s.ndjson" % (k, codec))
                jobs.append((drv, ["-kind", k, "-codec", codec, "-n", max(1, n // parts), "-seed", x.seed * 100 + i, "-out", out], None))
                files.append(("%s-%s" % (codec, k), out))
        if exh:
            tx, depth, mem = exh
            for i in range(2):
                out = x.path("lt-exh-%s.ndjson" % codec)
                jobs.append((drv, ["-kind", "exh", "-codec", codec, "-tx", tx, "-depth", depth, "-mem", mem, "-from", i, "-step", 2,
                                   "-seed", x.seed, "-out", out], None))
                files.append(("%s-exh" % codec, out))
    x.drive_many(jobs, timeout=800)
    x.traces("LtTrace", files, need=need, timeout=3000)


LT_INV = ["ReleasedTrue", "ReleasedOnce", "Closed", "Truthful", "ReachesClosure", "DataMatchesMembers", "MemoryBound",
          "RemembersLast", "RememberedTrue", "NeverBoth", "Isolation"]


def lt_design(x, conflict=False, mems="{9}"):
    c = dict(Tx="{1,2,3}", Memories=mems, Malformed="TRUE" if conflict else "FALSE",
             ClsSeq="<- OneConflict" if conflict else "<- NoConflicts")
    if conflict:
        c["MaxOps"] = 2 if x.quick else 3
    else:
        c["MaxOps"] = 4 if x.quick else 5
    x.design("LtDecoder", consts=c, invariants=LT_INV, properties=["StatusFinal", "QueueDrains"] if x.quick else ["StatusFinal"], timeout=3000)


def lt_replay(x, drv, mem, depth):
    f, n = x.generate("LtGen", consts=dict(N=3, Mem=mem, MaxOps=depth), invariants=["Emit"], timeout=3000)
    for codec in ("lt", "iblt", "ldpc"):
        out = x.path("replay-%s.ndjson" % codec)
        txt = x.drive(drv, ["-kind", "replay", "-codec", codec, "-in", f, "-out", out, "-seed", x.seed], timeout=1200)
        if os.path.getsize(out):
            x.traces("LtTrace", [("replay-" + codec, out)])
        m = re.search(r"REPLAYED behaviours=(\d+)", txt)
        if not m or int(m.group(1)) < n:
            x.doubt("behaviours could not be replayed: " + txt)
            continue
        x.cov["replayed_behaviours"] += n
        x.cov["traces_validated_against_impl"] += n
        x.log(codec, txt.strip())


def lt_window(x):
    for c in ("NoConflicts", "OneConflict"):
        x.design("LtWindow", consts=dict(Tx="{1,2,3}", ClsSeq="<- " + c, Sizes="{0,1,2,3}", MaxAdds=5 if x.quick else 7),
                 invariants=["Bounded", "Distinct", "MostRecent", "NewestIn", "ExactCodeword"], properties=["ProduceKeepsWindow"])


def c07(x):
    d = lt_drv(x); lt_window(x)
    lt_traces(x, d, {"window": (80, 600), "bigwindow": (3, 24)}, need=("ea", "er", "ep"))


def c08(x):
    d = lt_drv(x); lt_window(x)
    lt_traces(x, d, {"window": (80, 600), "pipe": (60, 600), "bigwindow": (3, 24)}, need=("ep", "ec"))


def c09(x):
    d = lt_drv(x); lt_design(x); lt_replay(x, d, 1000, 4 if x.quick else 5)
    lt_traces(x, d, {"plain": (150, 1500), "memory": (60, 600), "bigplain": (6, 48)}, need=("dc", "dt"), exh=None if x.quick else (3, 4, 1000))


c10 = c09


def c11(x):
    d = lt_drv(x); lt_design(x, mems="{0,1,2,3}"); lt_replay(x, d, 2, 4)
    lt_traces(x, d, {"memory": (150, 1500), "conflict": (100, 1000), "bigmemory": (6, 48)}, need=("dc", "dt"), exh=None if x.quick else (3, 4, 1))


def c12(x):
    d = lt_drv(x); lt_design(x, conflict=True, mems="{1,2,9}")
    lt_traces(x, d, {"conflict": (150, 1500)}, need=("dc", "dt"))


def c13(x):
    d = lt_drv(x); lt_design(x)
    lt_traces(x, d, {"pool": (400, 4000), "bigpool": (6, 48)}, codecs=("ldpc",), need=("df", "dc"))


# ------------------------------------------------------------------ des
def des(x):
    d = x.build("des", ["des/main.go", TRACE], "zz_verif_des")
    x.design("Des", consts=dict(Mods="{1,2}", MaxMsgs=3 if x.quick else 4, MaxDelay=1 if x.quick else 2, MaxTime=2 if x.quick else 3),
             invariants=["ExactlyOnce", "InOrder", "TimeOrdered", "OnTime", "NeverLate", "Conservation", "Horizon"],
             properties=["ClockForward", "Complete"] + (["Terminates"] if x.quick else []), timeout=3000)
    f, n = x.generate("DesGen", consts=dict(MaxDelay=1 if x.quick else 2), invariants=["Emit"], timeout=3000)
    out = x.path("replay.ndjson")
    txt = x.drive(d, ["-kind", "replay", "-in", f, "-out", out])
    if os.path.getsize(out):
        x.traces("DesTrace", [("des-replay", out)])
    if "behaviours=%d" % n not in txt:
        x.doubt("behaviours could not be replayed: " + txt)
    x.cov["replayed_behaviours"] += n
    x.cov["traces_validated_against_impl"] += n
    jobs, files = [], []
    for i in range(8):
        out = x.path("des.ndjson")
        jobs.append((d, ["-n", 60 if x.quick else 600, "-seed", x.seed * 100 + i, "-out", out], None))
        files.append(("des", out))
    for i in range(1 if x.quick else 6):
        out = x.path("des-bulk.ndjson")
        jobs.append((d, ["-kind", "bulk", "-n", 4, "-seed", x.seed * 100 + i, "-out", out], None))
        files.append(("des-bulk", out))
    x.drive_many(jobs)
    x.traces("DesTrace", files, need=("sch", "dlv", "ran", "bulk"), timeout=3000)


# --------------------------------------------------------------- newsim
def newsim_drv(x):
    return x.build_test("newsim", "newsim", ["newsim/main.go", TRACE, FIND, SKETCH], optional=[STAT, "newsim/stat.go"])


def newsim_traces(x, drv, kinds, need=()):
    jobs, files = [], []
    for k, (q, t) in kinds.items():
        n = q if x.quick else t
        parts = min(8, max(1, n // 10))
        for i in range(parts):
            out = x.path("newsim-%s.ndjson" % k)
            jobs.append((drv, ["-kind", k, "-n", max(1, n // parts), "-seed", x.seed * 100 + i, "-out", out], None))
            files.append((k, out))
    x.drive_many(jobs, timeout=800)
    x.traces("NewsimTrace", files, need=need, timeout=3000)


GOSSIP_INV = ["Sound", "BlockSync", "InFlight", "Bounded", "NoStall", "Kept", "KeptBack"]


def gossip_design(x):
    base = dict(N=2, Links="<- OneLink", Tx="{1,2}", NS=2, W=2, MaxBurst=1, MaxNeed=2, ShardOf="<- Shards2", GenBy="<- Gen2")
    x.design("Gossip", consts=base, invariants=GOSSIP_INV, properties=["Everywhere"])
    small = dict(base, N=3, Tx="{1,2,3}", W=1, MaxBurst=0, MaxNeed=1)  # every node generates
    for ln in ("Line", "Chain"):
        x.design("Gossip", consts=dict(small, Links="<- " + ln), invariants=GOSSIP_INV, properties=["Everywhere"])
    x.design("Gossip", consts=dict(base, Tx="{1,2,3,4}", W=3, MaxBurst=2, MaxNeed=3), invariants=GOSSIP_INV, timeout=3000)
    if not x.quick:
        x.design("Gossip", consts=dict(small, Links="<- Ring"), invariants=GOSSIP_INV, timeout=3000)
        x.design("Gossip", consts=dict(small, Links="<- Line", MaxNeed=2), invariants=GOSSIP_INV, properties=["Everywhere"], timeout=3000)
        x.design("Gossip", consts=dict(base, Tx="{1,2,3,4,5}", W=3, MaxBurst=2, MaxNeed=4), invariants=GOSSIP_INV, properties=["Everywhere"], timeout=3000)


def pull_design(x):
    for ln, n, tx in (("Line3", 3, "{1,2,3}"), ("Triangle", 3, "{1,2}")) if x.quick else \
            (("Line3", 3, "{1,2,3}"), ("Triangle", 3, "{1,2}"), ("Square", 4, "{1}"), ("Star4", 4, "{1,2}")):
        x.design("Pull", consts=dict(N=n, Links="<- " + ln, Tx=tx, GenBy="<- Gen1"),
                 invariants=["RequestedOnce", "ProcessedOnce", "Sound", "Answerable"], properties=["NeverWhenHeld", "Everywhere"], timeout=3000)


def c16(x):
    d = newsim_drv(x); gossip_design(x)
    newsim_traces(x, d, {"coding": (160, 1600), "coding-sim": (80, 400)}, need=("gen", "msg", "fin", "integ"))


def c17(x):
    d = newsim_drv(x); gossip_design(x)
    newsim_traces(x, d, {"coding": (200, 2000)}, need=("gen", "msg"))


def stat_traces(x, area, drv):
    if x.cov.get("left_out"):
        return
    jobs, files = [], []
    for i in range(8):
        out = x.path("%s-stat.ndjson" % area)
        jobs.append((drv, ["-kind", "stat", "-n", 8 if x.quick else 80, "-seed", x.seed * 100 + i, "-out", out], None))
        files.append((area + "-stat", out))
    x.drive_many(jobs, timeout=800)
    x.traces("StatTrace", files, need=("topo", "mom", "filt", "sk", {"newsim": "run", "simulator": "srun"}[area]), timeout=3000)


STATS_INV = ["CountersExact", "LatenciesExact", "RateMeansWhatItSays", "SeriesAddsUp", "SeriesComplete"]


def c24(x):
    d = newsim_drv(x)
    for warm, period, end in ((1, 2, 5), (2, 2, 6), (0, 1, 4)) if x.quick else ((1, 2, 7), (2, 2, 6), (0, 1, 6), (3, 2, 7), (1, 3, 7)):
        c = dict(Warm=warm, Period=period, End=end, MaxPerTick=1, Since='"reset"')
        x.design("Stats", consts=c, invariants=STATS_INV, properties=["Ends"], timeout=3000)
    x.design("Stats", consts=dict(Warm=0, Period=1 if x.quick else 2, End=3 if x.quick else 4, MaxPerTick=2, Since='"reset"'), invariants=STATS_INV, timeout=3000)
    x.design("Stats", consts=dict(Warm=1, Period=2, End=5, MaxPerTick=1, Since='"warmup"'), invariants=STATS_INV, broken="RateMeansWhatItSays")
    stat_traces(x, "newsim", d)
    newsim_traces(x, d, {"coding": (120, 1000), "pull": (120, 1000)}, need=("gen", "msg", "lat", "reset"))
    d = simulator_drv(x)
    stat_traces(x, "simulator", d)
    simulator_traces(x, d, need=("gen", "self", "msg", "lat", "reset"))


SIMNET_INV = ["OneNext", "Distinct", "Counted", "OnTime", "InOrder", "NoneLost"]


def c26(x):
    d = newsim_drv(x)
    c = dict(N=2, Links="<- One", Delay="<- SmallDelay", Burst=2, MaxIntv=2, MaxTime=3 if x.quick else 4, MaxSend=4 if x.quick else 5)
    x.design("SimNet", consts=c, invariants=SIMNET_INV, timeout=3000)
    x.design("SimNet", consts=dict(c, N=3, Links="<- Two", MaxIntv=1, MaxTime=2, MaxSend=3), invariants=SIMNET_INV, timeout=3000)
    if not x.quick:
        x.design("SimNet", consts=dict(c, N=3, Links="<- Three", Burst=1, MaxIntv=1, MaxTime=2, MaxSend=4), invariants=SIMNET_INV, timeout=3000)
    stat_traces(x, "newsim", d)
    newsim_traces(x, d, {"coding": (120, 1000), "pull": (120, 1000)}, need=("gen", "msg"))
    d = simulator_drv(x)
    stat_traces(x, "simulator", d)
    simulator_traces(x, d, need=("gen", "self", "msg"))


def c18(x):
    d = newsim_drv(x); pull_design(x)
    newsim_traces(x, d, {"pull": (240, 2400), "pull-sim": (80, 400)}, need=("gen", "msg", "fin", "integ"))


# ------------------------------------------------------------ simulator
def simulator_drv(x):
    return x.build_test("simulator", "simulator", ["simulator/main.go", TRACE, FIND, SKETCH], optional=[STAT, "simulator/stat.go"])


def simulator_traces(x, drv, need=()):
    jobs, files = [], []
    for k, (q, t) in {"link": (80, 1200), "sim": (40, 300)}.items():
        n = q if x.quick else t
        for i in range(8):
            out = x.path("simulator-%s.ndjson" % k)
            jobs.append((drv, ["-kind", k, "-n", n // 8, "-seed", x.seed * 100 + i, "-out", out], None))
            files.append((k, out))
    x.drive_many(jobs, timeout=800)
    x.traces("SimTrace", files, need=need, timeout=3000)


SIMLINK_INV = ["Exact", "WindowPositive", "KeptFull", "NeverIdle", "Limit", "BlockSync", "SameBlock", "Ended", "EndKnown"]


def c19(x):
    d = simulator_drv(x)
    cfgs = ((1, 1, 2, 0, 1), (3, 3, 2, 1, 2)) if x.quick else ((1, 1, 2, 0, 1), (2, 1, 1, 1, 3), (2, 1, 2, 0, 1), (3, 3, 2, 1, 2), (1, 1, 4, 0, 1))
    for sync in ("FALSE", "TRUE"):
        for th, cn, cd, ln, ld in cfgs:
            x.design("SimLink", consts=dict(Th=th, CNum=cn, CDen=cd, LNum=ln, LDen=ld, MaxTx=6 if x.quick else 9, MaxNeed=th + (2 if x.quick else 4), Sync=sync),
                     invariants=SIMLINK_INV, properties=["Drains"], view="View", timeout=3000)
    simulator_traces(x, d, need=("gen", "self", "msg", "fin", "integ"))


def c20(x):
    d = simulator_drv(x)
    for intv in (0, 2) if x.quick else (0, 1, 2, 3, 4):
        x.design("SimForward", consts=dict(Intv=intv, MaxTx=5 if x.quick else 7, MaxBurst=3, MaxTime=4 if x.quick else 6, Peers="{1,2}"),
                 invariants=["InOrder", "Spacing", "Prompt", "NothingLost", "NoneOverdue", "EveryPeerOnce"], properties=["AllForwarded"], timeout=3000)
    simulator_traces(x, d, need=("gen", "self", "msg", "fin", "integ"))


# ----------------------------------------------------------------- node
def node_drv(x):
    return x.build_test("node", "node", ["node/main.go", TRACE, FIND], optional=["node/wire.go", "node/loops.go"])


def node_traces(x, drv, kinds, need=()):
    jobs, files = [], []
    for k, (q, t) in kinds.items():
        n = q if x.quick else t
        parts = min(8, max(1, n // 10))
        for i in range(parts):
            out = x.path("node-%s.ndjson" % k)
            jobs.append((drv, ["-test.run=TestVerif", "-test.timeout=0", "-kind", k, "-n", max(1, n // parts), "-seed", x.seed * 100 + i, "-out", out], None, out))
            files.append((k, out))
    x.drive_many(jobs, timeout=800)
    x.traces("NodeTrace", files, need=need, timeout=3000)


def c21(x):
    d = node_drv(x)
    x.design("NodeRate", consts=dict(InitRate=5, MinRate=2, Inc=3, Dec=2, MaxCw=3 if x.quick else 4, QCap=1),
             invariants=["LossConserved", "RateExact", "AboveMinimum", "LossBounded"], timeout=3000)
    if not x.quick:
        x.design("NodeRate", consts=dict(InitRate=3, MinRate=3, Inc=1, Dec=1, MaxCw=4, QCap=2),
                 invariants=["LossConserved", "RateExact", "AboveMinimum", "LossBounded"], timeout=3000)
    node_traces(x, d, {"peer": (160, 1600), "slow": (80, 800)}, need=("peer", "in", "tx", "tick"))


NODEQ_INV = ["NoDeadlock", "Bounded", "Everyone", "NoneLost"]


def c22(x):
    d = node_drv(x)
    one = dict(NP=1, CapDec=1, CapTx=1, CapLoss=1, Locals=2, Cws=2, MaxBurst=3, MaxDec=4, Careful="TRUE")
    x.design("NodeQueues", consts=one, invariants=NODEQ_INV, properties=["AllDone"])
    x.design("NodeQueues", consts=dict(one, Careful="FALSE"), invariants=NODEQ_INV, broken="NoDeadlock")
    two = dict(one, NP=2, Locals=1, Cws=1, MaxDec=3)
    if x.quick:
        x.design("NodeQueues", consts=two, invariants=NODEQ_INV)
    else:
        x.design("NodeQueues", consts=two, invariants=NODEQ_INV, properties=["AllDone"], timeout=3000)
        x.design("NodeQueues", consts=dict(two, Locals=2, MaxDec=4, CapDec=2), invariants=NODEQ_INV, timeout=3000)
    node_traces(x, d, {"fan": (120, 1200), "casc": (64, 400), "peer": (48, 300), "net": (16, 100), "slow": (40, 400)}, need=("fan", "got", "casc", "net", "in"))


def c23(x):
    d = node_drv(x)
    for br in ("TRUE", "FALSE"):
        x.design("Handshake", consts=dict(KeyLen=3 if x.quick else 5, Payload=2 if x.quick else 3, Breaks=br),
                 invariants=["Agree", "InOrder", "NoGhost"], properties=["Completes", "Settles"], timeout=3000)
    node_traces(x, d, {"hs": (400, 4000), "net": (40, 300), "peer": (80, 800), "wire": (300, 3000)}, need=("hs", "net", "in", "tick"))


# -------------------------------------------------------------- testbed
def testbed_drv(x):
    """the driver, and the tool itself (with the race detector if there is one)"""
    d = x.build("testbed", ["testbed/main.go", "testbed/exp.go", TRACE], "zz_verif_testbed")
    tool = os.path.join(x.dir, "testbed-tool")
    for race in (["-race"], []):
        p = subprocess.run(["go", "build"] + race + ["-o", tool, "./testbed"], cwd=REPO, env=env_go(), capture_output=True, text=True)
        if p.returncode == 0:
            x.log("built the tool", *race)
            return d, tool
    raise CheckError("the tool does not build:\n" + p.stderr[-3000:])


def testbed_traces(x, kind, n, need):
    d, tool = testbed_drv(x)
    jobs, files = [], []
    for i in range(8):
        out = x.path("testbed-%s.ndjson" % kind)
        jobs.append((d, ["-kind", kind, "-n", n // 8, "-seed", x.seed * 100 + i, "-out", out, "-bin", tool], None))
        files.append((kind, out))
    x.drive_many(jobs, timeout=800 if x.quick else 3000)
    x.traces("TestbedTrace", files, need=need, timeout=3000)


def c25(x):
    inv = ["NoHang", "OnlyOnRequest", "StartComplete", "StopComplete", "OnlyTag", "Releasable"]
    c = dict(Regs='{"a","b"}', Tags='{"s","t"}', N=1, MaxCmds=3, MaxFaults=2, MaxServers=3, Release="TRUE", StopAll="TRUE")
    x.design("Testbed", consts=c, invariants=inv, properties=["Ends"], timeout=3000)
    x.design("Testbed", consts=dict(c, Regs='{"a","b","c"}', Tags='{"s"}', MaxCmds=2 if x.quick else 3), invariants=inv, timeout=3000)
    x.design("Testbed", consts=dict(c, Release="FALSE"), invariants=["NoHang"], broken="NoHang")
    x.design("Testbed", consts=dict(c, StopAll="FALSE"), invariants=["StopComplete"], broken="StopComplete")
    testbed_traces(x, "cluster", 320 if x.quick else 1200, ("cmd", "create", "delete", "reboot", "evolve", "fault", "kill", "end"))


def c27(x):
    inv = ["OneNode", "NeverBusy", "Running", "Collected"]
    c = dict(Hosts="{1,2}", Links="<- TwoLinks", MaxCmds=3, MaxFaults=2, KillFirst="TRUE")
    x.design("Deploy", consts=c, invariants=inv, properties=["Ends"])
    x.design("Deploy", consts=dict(c, Hosts="{1,2,3}", Links="<- Chain3", MaxCmds=2 if x.quick else 3), invariants=inv, timeout=3000)
    x.design("Deploy", consts=dict(c, KillFirst="FALSE"), invariants=["OneNode"], broken="OneNode")
    testbed_traces(x, "exp", 320 if x.quick else 1200, ("xcmd", "exec", "scp", "xfault", "xend"))


def nodeprog_traces(x, kind, n, each, need):
    d = x.build_test("nodeprog", "node", ["nodeprog/main.go", TRACE])
    prog = os.path.join(x.dir, "node-program")
    p = subprocess.run(["go", "build", "-o", prog, "./node"], cwd=REPO, env=env_go(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("the node program does not build:\n" + p.stderr[-3000:])
    jobs, files = [], []
    for i in range(n):
        out = x.path("nodeprog-%s.ndjson" % kind)
        jobs.append((d, ["-kind", kind, "-n", each, "-seed", x.seed * 100 + i, "-out", out, "-bin", prog], None))
        files.append((kind, out))
    # the programs mostly wait for the clock
    x.drive_many(jobs, timeout=800 if x.quick else 3000, workers=3 * CORES)
    x.traces("NodeProgTrace", files, need=need, timeout=3000)


def c28(x):
    inv = ["Connected", "Spread", "CountOnce", "Counted", "Registered", "OneSide"]
    live = ["EventuallyWired", "EventuallySpread"]
    c = dict(Nodes="{1,2,3}", Listed="<- Line3", Silent="{2}", Inline="FALSE", Retry="TRUE", ToSource="TRUE", Txs='{"t"}', Early="FALSE")
    x.design("NodeNet", consts=c, invariants=inv, properties=live)
    x.design("NodeNet", consts=dict(c, Early="TRUE"), invariants=inv)
    two = c if x.quick else dict(c, Txs='{"t","u"}')
    x.design("NodeNet", consts=dict(two, Listed="<- Ring3", Silent="{1}"), invariants=[i for i in inv if i != "CountOnce"], properties=live)
    x.design("NodeNet", consts=dict(c, Nodes="{1,2,3,4}", Listed="<- Star4", Silent="{3}"), invariants=inv)
    x.design("NodeNet", consts=dict(c, Nodes="{1,2,3,4}", Listed="<- Line4", Silent="{3}", Txs='{"t","u"}'), invariants=inv)
    if not x.quick:
        x.design("NodeNet", consts=dict(c, Nodes="{1,2,3,4,5}", Listed="<- Tree5", Silent="{2,3}", Txs='{"t","u"}'), invariants=inv, timeout=3000)
    x.design("NodeNet", consts=dict(c, Inline="TRUE"), invariants=["Connected"], broken="Connected")
    x.design("NodeNet", consts=dict(c, Retry="FALSE", Silent="{}"), invariants=["Connected"], broken="Connected")
    x.design("NodeNet", consts=dict(c, ToSource="FALSE", Silent="{}"), invariants=["CountOnce"], broken="CountOnce")
    nodeprog_traces(x, "mix", 24, 5 if x.quick else 40,
                    ("node", "conn", "send", "got", "rate", "recv", "total", "lat", "warm", "generated", "deg", "keys", "wired", "end"))


PLANS = dict(C28=c28, C25=c25, C27=c27, C24=c24, C26=c26, C21=c21, C22=c22, C23=c23,
             C19=c19, C20=c20,
             C16=c16, C17=c17, C18=c18,
             C14=des, C15=des,
             C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13,
             C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06)

TECH_DEFAULT = "TLA+ specification checked with TLC; traces recorded from the real code validated against it"
NOTE_DEFAULT = ("TLC checks the design specification exhaustively within small constants; executions recorded from the real "
                "code (seeded random and adversarial drivers) are accepted or rejected by the trace specification. "
                "Trusts TLC, the driver's projection of the real state, and that the explored inputs are representative.")
TECH, NOTES = {}, {}


def described(ids, design, trace, driver, bounds):
    for i in ids.split():
        TECH[i] = "TLA+/TLC: design %s; conformance: %s" % (design, trace)
        NOTES[i] = ("%s %s Trusts TLC, the driver's projection of what the code does, and that the recorded executions "
                    "are representative (seeded by VERIF_SEED; the thorough tier runs about ten times as many).") % (driver, bounds)


described("C01 C02 C03 C04 C06", "Riblt (encoder, decoder, window heap, sketches over free mappings)",
          "behaviours of RibltGen replayed into the real code, recorded sessions judged by RibltTrace",
          "Drives the real encoders, decoders and sketches with symbols whose XOR identifies the set exactly; hashes random, related and extreme.",
          "Design exhaustive for up to 4 symbols and 4 coded symbols; sessions up to some thousands of symbols.")
described("C05", "Riblt (mappings as a parameter)", "index sequences judged by RibltTrace (increasing, in range, densities 1/(1+i/2) in bands far out)",
          "Index sequences of random, small, large and special 64-bit hashes.", "The density is decided statistically within bounds that hold at the accuracy of the approximation used.")
described("C07 C08", "LtWindow (window, reservoir and shuffle sampling)", "recorded sessions of lt, iblt and ldpc judged by LtTrace",
          "All three codecs, degrees from scripted distributions including 0, 1, window size and beyond.", "Uniformity of the selection is decided statistically.")
described("C09 C10 C11 C12 C13", "LtDecoder over LtCore (peeling closure, memory, conflicts, freed handles)",
          "behaviours of LtGen replayed into the real code, recorded sessions of lt, iblt and ldpc judged by LtTrace",
          "All three codecs; hash conflicts forced by choosing salts, malformed codewords, memories of every size, handles freed and recycled.",
          "Design exhaustive for up to 4 transactions and 3-4 codewords.")
described("C14 C15", "Des (time, event order, horizons)", "behaviours of DesGen replayed, recorded sessions judged by DesTrace",
          "The real simulator with modules that send, chain and burst at equal and different times; horizons cut anywhere.", "Design exhaustive for 3 modules and 4 messages.")
described("C16 C17 C18", "Gossip and Pull (coded and announce/request gossip, safety and liveness)", "recorded networks judged by NewsimTrace",
          "Real nodes and links of newsim under the real simulator and under a driver that reorders and delays messages of different links.", "Design exhaustive for 2-3 nodes and 2-3 transactions.")
described("C19 C20", "SimLink and SimForward (blocks, windows, acknowledgements, rate-limited forwarding in time)", "recorded networks judged by SimTrace",
          "Real nodes and links of the simulator.", "Design exhaustive for small thresholds, overheads and losses.")
described("C21 C22 C23", "NodeRate, NodeQueues, Handshake", "recorded sessions judged by NodeTrace",
          "The real goroutines under testing/synctest (fake clock), with held writers, cascades beyond the queues, and transports that fragment and break.", "Design exhaustive for small queues, cascades and keys.")
described("C24 C26", "Stats and SimNet (counters, warm-up, reports; networks that run for ever)", "recorded simulations, reports and whole program runs judged by NewsimTrace, SimTrace and StatTrace",
          "Both simulations, in parts and as programs run twice on topology files with random options.", "Moments and quantiles are compared in integers within the sketch's stated accuracy.")
described("C25", "Testbed (workers, faults, a tool that is killed)", "recorded commands judged by TestbedTrace",
          "The real tool (race detector on) against a stand-in for the providers that denies, delays, drops and pages.", "The providers are the driver's reading of their documented interface.")
described("C27", "Deploy (install, run, download on failing servers)", "recorded commands judged by TestbedTrace",
          "The real tool against ssh servers of the driver.", "What remote commands do is read from their text by tolerant patterns.")
described("C28", "NodeNet (programs that start, dial, accept, exchange keys, generate, pass on)", "recorded runs judged by NodeProgTrace",
          "The real node program as processes on loopback addresses, the driver being its peers.", "Runs in real time: figures that depend on the moment are intervals, ages are tens of seconds, nothing depends on the speed of the machine.")
HOOK_COMMITS = []
