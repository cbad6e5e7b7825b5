"""C30: densities from moments."""
from common import *

CL = {"ExactMoments", "OrthogonalSize", "Orthogonal", "DensityPositive", "DensityIntegral", "DensitySolved", "DensityMoments", "Cdf", "CdfMonotone",
      "L2Distance", "KLDivergence", "EstimatedDensity", "Answers"}


def c30(chk):
    chk.add_model(model_check("DensityMC", "CONSTANTS MaxN=%d\nSPECIFICATION Spec\nINVARIANTS Unit Symmetric FirstRow Orthogonal Coefficients Positive Atom Ends Distance\nCHECK_DEADLOCK FALSE\n" % pick(5, 6), workers=6), "Density")
    for ops, num, salt in ((["exact", "ortho", "dist"], pick(40, 400), 1), (["dens", "dens", "est"], pick(48, 1000), 2)):
        cfg = "CONSTANTS Depth=8 Ops={%s}\nSPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ",".join('"%s"' % o for o in ops)
        r = generate("DensityGen", cfg, num=num, depth=9, seed=SEED * 29 + salt)
        chk.add_model(r)
        replay(chk, "drv_density.py", r.progs, "DensityTrace", relevant=lambda b, ep: CL, timeout=pick(400, 2500), batch=pick(150, 800))


CHECKS = {"C30": c30}
