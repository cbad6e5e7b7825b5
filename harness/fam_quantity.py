"""C18 - C22, C24: quantities, their moments, the MLMC estimator, subsampling."""
from common import *
from concurrent.futures import ThreadPoolExecutor

VALUES = {"Values", "Evaluates"}
EST = {"SampleCounts", "RemovedCounts", "LevelMeans", "LevelVariances", "Mean", "Variance", "MeanShape", "Estimates", "NothingToEstimate", "FirstSamples"}
MIDX = {"MeanIndex", "MeanIndexes", "MeanKeyRefused"}
SUB = {"SubsampleAccepted", "SubsampleSize", "SubsampleOfCollected", "SubsampleEstimated", "EverySampleReachable"}
BOOT = {"BootstrapAccepted", "BootstrapMeans", "BootstrapConstant", "BootstrapSpread"}
DEFS = {
    "C18": set(),
    "C19": {"bin", "cbin", "uf1", "uf2", "ufc", "red"},
    "C20": {"idx", "cat", "interp"},
    "C21": {"cmp", "ccmp", "lg", "sel"},
    "C22": {"moments", "moment", "cov"},
    "C24": set(),
}
CLAUSES = {"C18": EST | MIDX, "C19": VALUES | EST | {"ForeignRefused"}, "C20": VALUES | EST | MIDX | {"ForeignRefused"}, "C21": VALUES | EST | {"ForeignRefused"}, "C22": VALUES | EST | MIDX, "C24": SUB | BOOT}


def programs(num, depth, ops, kinds=("mem",), specs="1,2,3,4,5", maxn=6, nan=12, chunks="0,1,2,3", seed=1, par=6):
    cfg = ("CONSTANTS Depth=%d Kinds={%s} SpecSets={%s} MaxN=%d NanOneIn=%d ChunkSizes={%s}\nOpW <- Ops%s\n"
           "SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
           % (depth, ",".join('"%s"' % k for k in kinds), specs, maxn, nan, chunks, ops))
    par = max(1, min(par, num // 4))
    with ThreadPoolExecutor(par) as ex:
        rs = list(ex.map(lambda k: generate("QuantityGen", cfg, num=(num + par - 1) // par, depth=depth + 1, seed=seed * 100 + k, timeout=2400), range(par)))
    r = rs[0]
    for x in rs[1:]:
        r.progs += x.progs
        r.generated += x.generated
    return r.progs, r


def rp(chk, pid, progs, timeout=None):
    def relevant(b, ep):
        op = ep[b.idx]["op"]
        return CLAUSES[pid] | ({"Accepted", "Refused"} if op in DEFS[pid] or op == "grow" else set()) | {"StorageUsable"}
    replay(chk, "drv_quantity.py", progs, "QuantityTrace", relevant=relevant, timeout=timeout or pick(400, 3000), batch=pick(700, 1500))


def go(chk, pid, ops, num, depth=24, salt=0, **kw):
    p, r = programs(num, depth, ops, seed=SEED * 31 + salt, **kw)
    chk.add_model(r)
    rp(chk, pid, p)


def hdf(chk, pid, ops, num, salt):
    go(chk, pid, ops, num, depth=9, salt=salt, kinds=("hdf",), specs="6,7", maxn=40, nan=400, chunks="0")


def c18(chk):
    chk.add_model(model_check("EstimateMC", "CONSTANTS NS=%d\nSPECIFICATION Spec\nINVARIANTS StreamIsDefinition Telescopes ShiftInvariant OrderIrrelevant\nCHECK_DEADLOCK FALSE\n" % pick(3, 4), timeout=3000), "Estimate")
    go(chk, "C18", "Est", pick(160, 4000), salt=1)
    hdf(chk, "C18", "Est", pick(24, 400), 2)
    go(chk, "C18", "Est", pick(20, 400), depth=12, salt=3, kinds=("hdf",), specs="1,2", maxn=30, nan=60, chunks="0")
    go(chk, "C18", "Wrap", pick(70, 1500), salt=4, specs="1,2,3,5")
    go(chk, "C18", "First", pick(40, 400), depth=16, salt=5, kinds=("hdf", "mem"), specs="1,2", maxn=20, nan=60, chunks="0")


def laws(chk):
    chk.add_model(model_check("QuantityMC", "CONSTANT Vals <- Vals%s\nSPECIFICATION Spec\nINVARIANTS Arithmetic Selecting Indexing Moments\nCHECK_DEADLOCK FALSE\n" % pick("Q", "T"), timeout=3000), "Quantity")


def c19(chk):
    laws(chk)
    go(chk, "C19", "Arith", pick(300, 4000), salt=11)


def c20(chk):
    laws(chk)
    go(chk, "C20", "Index", pick(260, 4000), salt=21)
    hdf(chk, "C20", "Index", pick(12, 200), 22)


def c21(chk):
    laws(chk)
    go(chk, "C21", "Sel", pick(260, 4000), salt=31)
    hdf(chk, "C21", "Sel", pick(12, 200), 32)


def c22(chk):
    laws(chk)
    go(chk, "C22", "Mom", pick(120, 1500), salt=41)
    import fam_numeric as fn
    fn.run(chk, "C22", ["mom", "eq"], pick(160, 3000))


def c24(chk):
    chk.add_model(model_check("SubsampleMC", "CONSTANTS MaxChunks=3 MaxSize=%d\nSPECIFICATION Spec\nINVARIANTS Enough Exactly NeverStuck Inside Reachable\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % pick(3, 4), timeout=3000), "Subsample")
    go(chk, "C24", "Sub", pick(120, 1500), salt=51)
    go(chk, "C24", "Boot", pick(60, 600), depth=14, salt=52, specs="1", nan=400, maxn=8)


CHECKS = {"C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C24": c24}
