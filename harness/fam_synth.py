"""C34, C35: the synthetic simulation and the statistical tests."""
from common import *

SIM = {"Usable", "Workspace", "DefaultFormat", "Cost", "CostEstimate", "NanIsFailure", "FailingShare", "NoHalfResult", "Fine", "Coarse", "SampleFunction"}
STAT = {"Usable", "TTest", "Chi2Test", "Anova"}


def run(chk, mode, num, depth, cl):
    cfg = 'CONSTANTS Depth=%d Mode="%s"\nSPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % (depth, mode)
    r = generate("SynthGen", cfg, num=num, depth=depth + 1, seed=SEED * 31 + len(mode))
    chk.add_model(r)
    replay(chk, "drv_synth.py", r.progs, "SynthTrace", relevant=lambda b, ep: cl, timeout=pick(300, 1500), batch=pick(400, 1200))


def mc(chk):
    chk.add_model(model_check("SynthMC", "CONSTANTS MaxLen=%d\nSPECIFICATION Spec\nINVARIANTS InBand Extremes Coupled Coarsest Tests\nCHECK_DEADLOCK FALSE\n" % pick(40, 400), workers=6), "Synth")


def c34(chk):
    mc(chk)
    run(chk, "base", pick(80, 1000), 30, SIM)
    run(chk, "ws", pick(48, 600), 24, SIM)


def c35(chk):
    mc(chk)
    run(chk, "stat", pick(120, 2000), 20, STAT)


CHECKS = {"C34": c34, "C35": c35}
