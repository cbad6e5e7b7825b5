"""Densities from moments."""
from drvlib import *
import common
from drvq import ChunkedMemory
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity
import mlmc.moments as mm
import mlmc.estimator as me
import mlmc.tool.simple_distribution as sd

rat = common.rat
GP, GW = np.polynomial.legendre.leggauss(400)


def fl(r):
    return r[0] / r[1]


def leg(op):
    return mm.Legendre(op["n"], tuple(float(x) for x in op["dom"]))


def linear(c, dom, q=0.0):
    a, b = map(float, dom)
    t = lambda x: 2 * (np.asarray(x, float) - a) / (b - a) - 1
    return lambda x: (1 + c * t(x) + q * (3 * t(x) ** 2 - 1) / 2) / (b - a)


def mil(x, k=1000000):
    x = float(np.ravel(x)[0])
    if not np.isfinite(x) or abs(x) > 1000:
        return 10 ** 9
    return int(round(x * k))


def exact(op, e):
    f = {"moments": sd.compute_exact_moments, "semimoments": sd.compute_semiexact_moments, "cov": sd.compute_exact_cov, "semicov": sd.compute_semiexact_cov}[op["fn"]]
    e["r"] = [rat(x, tol=1e-7) for x in np.ravel(f(leg(op), linear(fl(op["c"]), op["dom"], fl(op["q"]))))]


def ortho(op, e):
    cov = np.array([[fl(x) for x in row] for row in op["cov"]])
    fn = leg(op)
    if op["repeat"] and not op["auto"]:
        # a covariance without full rank: the last two functions coincide
        cov[-1, :], cov[:, -1] = cov[-2, :].copy(), cov[:, -2].copy()
        cov[-1, -1] = cov[-2, -2]
        cov[-1, -2] = cov[-2, -1] = cov[-2, -2]
    M = np.eye(op["n"])
    M[:, 0] = -cov[:, 0]
    ev = np.sort(np.linalg.eigvalsh(M @ cov @ M.T))
    tol = 1e-6
    if op["cut"] and len(ev) > 1 and ev[1] > ev[0] * 1.01:
        tol = np.sqrt(max(ev[0], 1e-6) * ev[1])
    e["want"] = int(np.sum(ev > tol))
    obj, info = sd.construct_ortogonal_moments(fn, cov, **({} if op["auto"] else {"tol": tol}))
    # the transformation as seen from outside: moments of points, solved for the matrix
    x = np.linspace(op["dom"][0], op["dom"][1], 3 * op["n"] + 1)
    L = np.linalg.lstsq(fn.eval_all(x), obj.eval_all(x), rcond=None)[0].T
    e["size"] = int(obj.size)
    e["res"] = mil(np.max(np.abs(L @ cov @ L.T - np.eye(L.shape[0]))))


def nodes(dom):
    a, b = map(float, dom)
    return (GP + 1) / 2 * (b - a) + a, GW * (b - a) / 2


def dens(op, e):
    fn = leg(op)
    data = np.array([[fl(m), fl(v)] for m, v in zip(op["mom"], op["vars"])])
    d = sd.SimpleDistribution(fn, data, domain=fn.domain)
    res = d.estimate_density_minimize(tol=10.0 ** -op["tol"])
    x, w = nodes(op["dom"])
    f = d.density(x)
    e["ok"] = bool(res.success)
    e["pos"] = bool(np.all(f >= 0))
    e["int"] = mil(np.sum(w * f))
    e["res"] = [mil(np.sum(w * f * fn.eval_all(x)[:, i]) - data[i, 0]) for i in range(op["n"])]
    a, b = map(float, op["dom"])
    at = np.array([a + (fl(t) + 1) / 2 * (b - a) for t in op["at"]])
    e["cdf"] = [mil(y) for y in d.cdf(at)]
    e["ref"] = []
    for p in at:
        p = min(max(p, a), b)
        y, v = (GP + 1) / 2 * (p - a) + a, GW * (p - a) / 2
        e["ref"].append(mil(np.sum(v * d.density(y)) if p > a else 0.0))


def dist(op, e):
    a, b = map(float, op["dom"])
    p, q, u = linear(fl(op["c1"]), op["dom"]), linear(fl(op["c2"]), op["dom"]), linear(0.0, op["dom"])
    e["l2"] = rat(sd.L2_distance(p, q, a, b) ** 2, tol=1e-7)
    e["klself"] = mil(sd.KL_divergence(p, p, a, b))
    e["kl"] = mil(sd.KL_divergence(p, q, a, b))
    e["klu"] = mil(sd.KL_divergence(u, q, a, b))


def est(op, e):
    a, b = map(float, op["dom"])
    x = lambda t: a + (t + 1) / 2 * (b - a)
    specs = [QuantitySpec("q", "m", (1, 1), [1.0], ["x"])]
    if op["kind"] == "hdf":
        p = os.path.join(os.environ["VERIF_SCRATCH"], "d.hdf5")
        if os.path.exists(p):
            os.remove(p)
        st = SampleStorageHDF(p)
    else:
        st = ChunkedMemory() if op["kind"] == "chunk" else Memory()
    st.save_global_data(level_parameters=[[1.0 / (k + 1)] for k in range(len(op["ls"]))], result_format=specs)
    for l, xs in enumerate(op["ls"]):
        ids = ["L%02d_S%07d" % (l, i) for i in range(len(xs))]
        st.save_scheduled_samples(l, ids)
        st.save_samples({l: [(i, (np.array([x(fl(s["f"]))]), np.array([x(fl(s["f"]) - fl(s["d"])) if l else 0.0]))) for i, s in zip(ids, xs)]}, {})
    q = make_root_quantity(st, specs)["q"][1.0]["x"][0, 0]
    fn = leg(op)
    d, info, res, obj = me.Estimate(q, st, fn).construct_density(tol=1e-8, orth_moments_tol=1e-4)
    y, w = nodes(op["dom"])
    f = d.density(y)
    e["ok"] = bool(res.success and obj.size == op["n"])
    e["int"] = mil(np.sum(w * f))
    e["mom"] = [mil(np.sum(w * f * fn.eval_all(y)[:, i]), 1000) for i in range(op["n"])]


OPS = {"exact": exact, "ortho": ortho, "dens": dens, "dist": dist, "est": est}


def episode(prog):
    out = [{"op": "begin", "raised": ""}]
    for op in prog:
        e = dict(op)
        e["raised"] = ""
        try:
            OPS[op["op"]](op, e)
        except Exception:
            e["raised"] = exc_name()
        out.append(e)
    return out


def main():
    silence()
    np.seterr(all="ignore")
    run_all(load_input()["progs"], episode)


main()
