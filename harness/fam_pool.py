"""C01, C02, C04, C06, C17 (and the pool side of C13): local sampling pools."""
from common import *

CF = "CONSTANTS Samples={1} NLev=1 LevelOf<-%sLevel FailedOf<-%sFailed\n"
TAIL = "SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
ALL = ("one", "process", "thread")


def design(chk):
    r = model_check("PoolMC", "CONSTANTS Samples={1,2,3%s} NLev=2 LevelOf<-MCLevel FailedOf<-MCFailed\nSPECIFICATION PSpec\n"
                    "INVARIANTS PTypeOK Conserve Truthful\nPROPERTIES ExactlyOnce AllDelivered\nCHECK_DEADLOCK FALSE\n" % pick("", ",4"))
    chk.add_model(r, "Pool")


def scenarios(chk, mode, kinds, num, salt=0):
    r = generate("PoolGen", CF % ("G", "G") + 'Mode="%s" Kinds={%s}\n' % (mode, ",".join('"%s"' % k for k in kinds)) + TAIL,
                 num=num, depth=2, seed=SEED * 13 + salt)
    chk.add_model(r)
    return r.progs


OP = {"OperationAccepted"}
CLAUSES = {
    "C01": OP | {"DeliveredOnce", "DeliveredScheduled", "DeliveredComplete", "AllDelivered", "LevelRight", "ResultExact", "OutcomeRight",
                 "StoredCounts", "StoredFinished", "StoredValues", "StoredFailed", "RunningTrue"},
    "C02": OP | {"RunningTrue", "AllDelivered", "WaitEnds", "StoredFinished", "DeliveredOnce"},
    "C04": OP | {"SameResult", "SeedOfId", "SeedDistinct", "ResultExact", "StoredValues", "OutcomeRight"},
    "C06": OP | {"OutcomeRight", "MessageKept", "StoredCounts", "StoredFailed", "StoredFinished", "StoredValues", "ResultExact", "WaitEnds", "LevelRight",
                 "AllDelivered", "RunningTrue"},
    "C13": OP | {"CostOnce", "CostSane"},
    "C17": OP | {"OwnDirectory", "CommonFiles", "FailedKept", "SuccessfulKept", "Cleaned", "ContentsKept", "NothingElse"},
}


def rp(chk, pid, progs, nproc=8, timeout=200, known=None, stride=1, offset=0, maxpos=10 ** 6, envs=None):
    replay(chk, "drv_pool.py", progs, "PoolTrace", CF % ("T", "T"), lambda b, ep: CLAUSES[pid], timeout=timeout, nproc=nproc, known=known,
           extra={"stride": stride, "offset": offset, "maxpos": maxpos}, batch=pick(1500, 4000), envs=envs)


def inter(chk, pid, nthread, nproc, stride):
    p = scenarios(chk, "inter", ("thread",), nthread, 1)
    rp(chk, pid, p, timeout=pick(300, 3000), stride=stride)
    if nproc:
        p = scenarios(chk, "inter", ("process",), nproc, 2)
        rp(chk, pid, p, timeout=pick(300, 2000), stride=stride * pick(7, 2), offset=SEED % 5)


def runs(chk, pid, n, kinds=ALL, salt=3):
    rp(chk, pid, scenarios(chk, "run", kinds, n, salt), timeout=pick(400, 3000))


def c01(chk):
    design(chk)
    inter(chk, "C01", pick(16, 120), pick(4, 24), pick(2, 1))
    runs(chk, "C01", pick(24, 300))
    rp(chk, "C01", scenarios(chk, "bulk", ("one", "process", "thread"), pick(3, 9), 17), timeout=600)


def c02(chk):
    design(chk)
    inter(chk, "C02", pick(10, 80), pick(3, 16), pick(3, 1))
    runs(chk, "C02", pick(30, 300), salt=5)
    import fam_sampler as fs
    fs.run(chk, "C02", [(8, .5, fs.B, 3, 5, True, fs.FULL)], model=False)


def c04(chk):
    design(chk)
    rp(chk, "C04", scenarios(chk, "repro", ALL, pick(24, 240), 7), timeout=pick(300, 2000),
       envs=[{"PYTHONHASHSEED": "0"}, {"PYTHONHASHSEED": str(100 + SEED)}])
    runs(chk, "C04", pick(8, 60), salt=8)
    big = [dict(mode="repro", nl=3, m=pick(30, 60), plans=[dict(kind="one", workers=1, gseed=3, order=list(range(1, 3 * pick(30, 60) + 1)))])]
    rp(chk, "C04", big)
    seeds = [dict(mode="seeds", nl=a, m=b, upto=c, salt=d) for a, b, c, d in ((3, 800, 800, 1), (10, 200, 5000, 2), (2, 600, 10 ** 6, 3), (2, 300, 4 * 10 ** 8, 4), (130, 12, 40, 5))]
    rp(chk, "C04", seeds)


def c06(chk):
    design(chk)
    runs(chk, "C06", pick(48, 500), salt=9)
    inter(chk, "C06", pick(4, 30), 0, pick(6, 2))


def c17(chk):
    design(chk)
    known = [f for f in known_findings() if f["property"] == "C17"]

    def kf(b, prog, ep):
        if prog["kind"] == "thread" and prog["workers"] > 1 and "OperationAccepted" not in b.clauses:
            for f in known:
                if f["id"] == "thread-pool-shared-cwd":
                    return f["what"]
    rp(chk, "C17", scenarios(chk, "ws", ("one", "one", "process", "thread"), pick(60, 500), 11), known=kf, timeout=pick(300, 2000))
    import fam_pbs
    fam_pbs.ws(chk)


def cost(chk):
    p = scenarios(chk, "inter", ("thread",), pick(6, 30), 12)
    rp(chk, "C13", p, timeout=pick(300, 2000), stride=pick(5, 1))
    runs(chk, "C13", pick(16, 100), salt=13)


CHECKS = {"C01": c01, "C02": c02, "C04": c04, "C06": c06, "C17": c17}
