"""C07, C08, C09, C12, C13: the sample storages."""
from common import *

CF = "CONSTANTS NLevels=1 MaxIds=1 Vals={1}\n"
TAIL = "SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def design(chk):
    n = pick(2, 3)
    r = model_check("Storage", "CONSTANTS NLevels=2 MaxIds=%d Vals={1%s}\nSPECIFICATION Spec\nINVARIANTS TypeOK OnceEach Accounting Durable\n"
                    "PROPERTIES KeptInOrder\nCHECK_DEADLOCK FALSE\n" % (n, pick(",2", "")), workers=6)
    chk.add_model(r, "Storage")


def programs(kinds, depth, num, maxlev, maxbatch, seed, limit, shapes="0,1,2,3,4,8,9"):
    r = generate("StorageGen", CF + "Depth=%d MaxLevels=%d Kinds={%s} NCodes=9 MaxBatch=%d Shapes={%s}\n" %
                 (depth, maxlev, ",".join('"%s"' % k for k in kinds), maxbatch, shapes) + TAIL, num=num, depth=depth, seed=seed)
    progs = r.progs
    step = max(1, len(progs) // limit)
    return progs[::step][:limit], r


CLAUSES = {
    "C07": {"PairsExact", "ChunkDataExact", "FirstSamplesExact", "CollectedCount", "FormatKept", "OperationAccepted", "ReadersAnswer"},
    "C08": {"FinishedCount", "CollectedCount", "ScheduledKept", "UnfinishedExact", "FailedExact", "LevelCount", "OperationAccepted", "ReadersAnswer"},
    "C12": {"ChunksPartition", "ChunkDataExact", "FirstSamplesExact", "PairsExact", "CollectedCount", "OperationAccepted", "ReadersAnswer"},
    "C13": {"CostExact", "OperationAccepted", "ReadersAnswer"},
}


def relevant_for(pid):
    def rel(b, ep):
        if pid == "C09":
            # everything observed from the first reopening on
            if any(e["op"] == "reopen" for e in ep[:b.idx + 1]):
                return set(b.clauses)
            return {"FormatKept", "LevelParameters"}
        return CLAUSES[pid]
    return rel


PARTS = [(7, 3, 3, .4, "0,1,2,3,4,8,9"), (12, 3, 4, .35, "0,1,2,3,4,8,9"), (14, 12, 2, .08, "0,1,2,3,4,8,9"), (9, 2, 6, .17, "5,6,7")]


def run(chk, pid, kinds=("mem", "hdf"), parts=PARTS, want=None, share=1.0):
    design(chk)
    lim = int(pick(240, 5000) * share)
    allp = []
    for depth, maxlev, maxbatch, sh, shapes in parts:
        progs, r = programs(kinds, depth, max(20, int(lim * sh)), maxlev, maxbatch, SEED * 7 + depth, int(lim * sh), shapes)
        chk.add_model(r)
        allp += progs
    if want:
        allp = [p for p in allp if want(p)]
    replay(chk, "drv_storage.py", allp, "StorageTrace", CF, relevant_for(pid), timeout=pick(240, 2000))
    chk.extra["episodes_kinds"] = list(kinds)


def c07(chk):
    run(chk, "C07")


def c08(chk):
    run(chk, "C08")


def c09(chk):
    run(chk, "C09", kinds=("hdf",), want=lambda p: any(o["op"] == "reopen" for o in p))


def c12(chk):
    run(chk, "C12", parts=[(9, 3, 6, .5, "5,6,7"), (14, 2, 8, .4, "5,6"), (8, 4, 4, .1, "0,3")])


def c13(chk):
    """cost: the storage, the sampler over a scripted pool, and the pools themselves"""
    import fam_sampler, fam_pool
    run(chk, "C13", share=.6)
    fam_sampler.run(chk, "C13", [(9, .5, fam_sampler.B, 3, 5, True, fam_sampler.FULL)], model=False)
    fam_pool.cost(chk)


CHECKS = {"C07": c07, "C08": c08, "C09": c09, "C12": c12, "C13": c13}
