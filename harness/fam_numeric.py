"""C22 (moment functions), C23: allocation, level parameters, counts, domain, regression."""
from common import *

CLAUSES = {"C22": {"MomentShape", "MomentValues", "MomentEquality", "Answers"},
           "C23": {"OptimalCounts", "LevelParameters", "InitialCounts", "SampleVector", "DomainEstimate", "RegressedVariances", "Answers"}}


def run(chk, pid, ops, num, salt=0):
    cfg = "CONSTANTS Depth=10 Ops={%s}\nSPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ",".join('"%s"' % o for o in ops)
    r = generate("NumericGen", cfg, num=num, depth=11, seed=SEED * 17 + salt)
    chk.add_model(r)
    replay(chk, "drv_numeric.py", r.progs, "NumericTrace", relevant=lambda b, ep: CLAUSES[pid], timeout=pick(300, 2000), batch=pick(400, 1500))


def c23(chk):
    chk.add_model(model_check("AllocMC", "CONSTANTS MaxV=%d\nSPECIFICATION Spec\nINVARIANTS ReachesTarget AtLeastTwo Monotone\nCHECK_DEADLOCK FALSE\n" % pick(2, 4), timeout=3000), "Allocation")
    run(chk, "C23", ["alloc", "levels", "ns", "vec", "dom"], pick(240, 4000), 1)
    run(chk, "C23", ["reg"], pick(60, 600), 2)


CHECKS = {"C23": c23}
