"""C03, C05, C10, C11, C27 (and the sampler side of C02, C13): the sampler over a scripted pool."""
from common import *

CF = "CONSTANTS NLevels=1 MaxIds=1 Vals={1} MaxN=1 MaxRestarts=1\n"
TAIL = "SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def design(chk):
    r = model_check("Sampler", "CONSTANTS NLevels=2 MaxIds=1 Vals={1} MaxN=%d MaxRestarts=%d\nSPECIFICATION SSpec\n"
                    "INVARIANTS SOnceEach Conserved Contiguous NeverOver Collected GrowOK\nPROPERTIES CountsGrow Drains\nCHECK_DEADLOCK FALSE\n"
                    % pick((2, 1), (2, 2)), workers=6)
    chk.add_model(r, "Sampler")


def programs(chk, depth, num, kinds, maxlev, maxtgt, restarts, seed, limit, inits=("one", "two", "full", "full")):
    r = generate("SamplerGen", CF + 'Depth=%d MaxLevels=%d Kinds={%s} MaxTgt=%d Restarts=%s InitOps={%s}\n' %
                 (depth, maxlev, ",".join('"%s"' % k for k in kinds), maxtgt, "TRUE" if restarts else "FALSE",
                  ",".join('"%s"' % i for i in sorted(set(inits)))) + TAIL, num=num, depth=depth + 1, seed=seed)
    chk.add_model(r)
    progs = r.progs
    step = max(1, len(progs) // limit)
    return progs[::step][:limit]


BASE = {"OperationAccepted", "ReadersAnswer"}
CLAUSES = {
    "C03": BASE | {"IdFresh", "IdNext", "ScheduledStored", "CountResumed", "CountTracked", "LevelCount", "RenewOnce", "TargetReached", "WithinTarget"},
    "C05": BASE | {"WithinTarget", "TargetReached", "GrowthExact", "AddingVerdict", "HalfFinished", "CountTracked", "CountResumed", "ScheduledStored",
                   "FinishedReported", "FinishedCount", "Polled"},
    "C10": BASE | {"RenewOnce", "RenewOnlyFailed", "AllFailedRenewed", "FailedStored", "UnfinishedExact", "ResultsStored", "FinishedCount", "CollectedCount",
                   "ScheduledStored", "CountTracked", "IdFresh", "LevelCoupling"},
    "C11": BASE | {"CrashKeepsScheduled", "CrashKeepsResults", "CrashKeepsFailed", "ToldUnfinished", "CountResumed", "CountTracked", "ResultsStored",
                   "ScheduledStored", "FailedStored", "UnfinishedExact", "FinishedCount", "CollectedCount", "IdFresh", "IdNext", "TargetReached",
                   "WithinTarget", "CostStored", "WaitedForAll"},
    "C27": BASE | {"LevelCoupling", "LevelCount", "ResultsStored"},
    "C02": BASE | {"WaitEnds", "WaitedForAll", "RunningReported", "Polled", "ResultsStored", "FinishedCount", "HalfFinished"},
    "C13": BASE | {"CostStored"},
}


def has(p, *ops):
    return any(o["op"] in ops or (o["op"] == "crash" and o["inner"]["op"] in ops) for o in p)


def rel(pid):
    def f(b, ep):
        if pid == "C11" and not any(e["op"] in ("restart", "dead") for e in ep[:b.idx + 1]):
            return set()
        return CLAUSES[pid]
    return f


def run(chk, pid, parts, want=None, model=True):
    """parts: (depth, share, kinds, maxlev, maxtgt, restarts, inits)"""
    if model:
        design(chk)
    lim = pick(260, 6000)
    allp = []
    for i, (depth, share, kinds, maxlev, maxtgt, restarts, inits) in enumerate(parts):
        n = max(20, int(lim * share))
        allp += programs(chk, depth, n * 2 if want else n, kinds, maxlev, maxtgt, restarts, SEED * 31 + i * 7 + depth, n * 2 if want else n, inits)
    if want:
        allp = [p for p in allp if want(p)]
    allp = allp[:lim * 2]
    replay(chk, "drv_sampler.py", allp, "SamplerTrace", CF, rel(pid), timeout=pick(200, 1500), batch=pick(900, 3000))


B = ("hdf", "mem")
FULL = ("one", "two", "full", "full")


def c03(chk):
    run(chk, "C03", [(8, .5, B, 3, 4, True, FULL), (12, .3, ("hdf",), 4, 5, True, FULL), (6, .1, ("hdf",), 12, 3, True, ("full",)),
                     (4, .05, B, 4, 100, False, ("none",))])


def c05(chk):
    run(chk, "C05", [(7, .4, B, 3, 6, False, FULL), (9, .3, B, 4, 12, False, FULL), (8, .2, ("hdf",), 3, 5, True, FULL),
                     (3, .05, B, 5, 40, False, ("none", "one", "two")), (4, .05, B, 3, 60, False, ("two",))])


def c10(chk):
    run(chk, "C10", [(9, .6, ("hdf",), 3, 4, False, FULL), (10, .4, ("hdf",), 4, 4, True, FULL)], want=lambda p: has(p, "renew"))


def c11(chk):
    run(chk, "C11", [(8, .5, ("hdf",), 3, 4, True, FULL), (12, .4, ("hdf",), 4, 4, True, FULL), (7, .1, ("hdf",), 11, 2, True, ("full",))],
        want=lambda p: has(p, "restart") or any(o["op"] == "crash" for o in p))


def c27(chk):
    run(chk, "C27", [(5, .6, B, 6, 3, True, FULL), (4, .3, ("hdf",), 12, 2, True, ("full",))])


CHECKS = {"C03": c03, "C05": c05, "C10": c10, "C11": c11, "C27": c27}
