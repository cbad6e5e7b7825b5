"""Moment functions, allocation of samples, level parameters, domain estimate, regression."""
from drvlib import *
import common
from drvq import ChunkedMemory
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity
import mlmc.moments as mm
import mlmc.estimator as me

rat = common.rat


def fl(r):
    return float("nan") if r[1] == 0 else r[0] / r[1]


CLS = {"legendre": mm.Legendre, "monomial": mm.Monomial, "fourier": mm.Fourier}


def val(m, x):
    return 2.0 ** fl(x) if m["log"] else fl(x) * 2.0 ** -m.get("q", 0)      # q: the scale of the domain


def make(m):
    kw = {}
    if m["ref"]:
        kw["ref_domain"] = tuple(fl(x) for x in m["ref"])
    for name, key, default in (("log", "log", False), ("safe_eval", "safe", True)):
        if m[key] != default or m["size"] % 2:      # defaults are left out now and then
            kw[name] = m[key]
    return CLS[m["kind"]](m["size"], domain=(val(m, m["a"]), val(m, m["b"])), **kw)


def r1(a):
    return [rat(x) for x in np.ravel(a)]


def mom(op, e):
    m, c = op["m"], op["call"]
    f = make(m)
    x = np.array([val(m, p) for p in op["x"]]).reshape(op["shape"]) if op["shape"] else val(m, op["x"][0])
    if c == "all":
        r = f.eval_all(x)
        r2 = f(x)
        if not np.array_equal(r, r2, equal_nan=True):
            r = np.full(np.shape(r), 12345.6789)
    elif c == "size":
        r = f.eval_all(x, op["size"])
    elif c == "resize":
        r = f.change_size(op["size"]).eval_all(x)
    elif c == "single":
        r = f.eval_single_moment(op["i"], x)
    elif c == "eval":
        r = f.eval(op["i"], x)
    elif c == "der":
        r = f.eval_all_der(x, degree=op["d"])
    elif c == "diff":
        r = f.eval_diff(x) if op["d"] == 1 else f.eval_diff2(x)
    elif c in ("trans", "tder", "tdiff"):
        t = mm.TransformedMoments(f, np.array([[fl(v) for v in row] for row in op["mat"]]))
        r = t.eval_all(x) if c == "trans" else t.eval_all_der(x, degree=op["d"]) if c == "tder" else t.eval_diff(x) if op["d"] == 1 else t.eval_diff2(x)
    elif c == "inv":
        r = np.atleast_1d(f.inv_transform(f.transform(np.atleast_1d(x))))
        r = np.log2(r) if m["log"] else r * 2.0 ** m["q"]
    e["rsh"], e["r"] = [int(k) for k in np.shape(r)], r1(r)


def eq(op, e):
    m, w = dict(op["m"]), op["w"]
    f = make(m)
    o = dict(m)
    if w == "size":
        o["size"] += 1
    elif w == "dom":
        o["b"] = [o["b"][0] + 1, 1]
    elif w == "log":
        if not m["log"]:
            o["a"], o["b"] = [1, 1], [2, 1]
            f = make(dict(o, log=False))
        # the same domain, with and without logarithm
        g = CLS[m["kind"]](m["size"], domain=f.domain, log=not m["log"], safe_eval=m["safe"], ref_domain=f.ref_domain)
        e["r"] = bool(f == g)
        return
    elif w == "safe":
        o["safe"] = not o["safe"]
    elif w == "kind":
        o["kind"] = {"legendre": "monomial", "monomial": "fourier", "fourier": "legendre"}[o["kind"]]
        o["ref"] = []
    elif w == "ref":
        # the default reference domain given explicitly, or another one
        o["ref"] = []
    elif w == "mat":
        a = mm.TransformedMoments(f, np.eye(m["size"]))
        b = mm.TransformedMoments(make(m), np.eye(m["size"]) * 2)
        c = mm.TransformedMoments(make(m), np.eye(m["size"]))
        e["r"] = bool(a == b) or not bool(a == c)
        return
    e["r"] = bool(f == make(o))


def storage(ls, kind):
    specs = [QuantitySpec("q", "m", (1, 1), [1.0], ["x"])]
    if kind == "hdf":
        path = os.path.join(os.environ["VERIF_SCRATCH"], "n.hdf5")
        if os.path.exists(path):
            os.remove(path)
        st = SampleStorageHDF(path)
    else:
        st = ChunkedMemory() if kind == "chunk" else Memory()
    st.save_global_data(level_parameters=[[1.0 / (k + 1)] for k in range(len(ls))], result_format=specs)
    for l, xs in enumerate(ls):
        ids = ["L%02d_S%07d" % (l, i) for i in range(len(xs))]
        st.save_scheduled_samples(l, ids)
        st.save_samples({l: [(i, (np.array([x]), np.array([x + 100.0 if l else 0.0]))) for i, x in zip(ids, xs)]}, {})
    return st, specs


class Steps:
    def __init__(self, steps, n_ops):
        self.steps, self.n_ops = steps, n_ops

    def get_level_parameters(self):
        return [[s] for s in self.steps]

    def get_n_ops(self):
        return self.n_ops

    def get_n_levels(self):
        return len(self.steps)


def run1(op):
    e = dict(op)
    e["raised"] = ""
    try:
        o = op["op"]
        if o == "mom":
            mom(op, e)
        elif o == "eq":
            eq(op, e)
        elif o == "alloc":
            v = np.array([[fl(x) ** 2 for x in row] for row in op["sv"]]).T        # levels x moments
            n_ops = np.array([fl(x) ** 2 for x in op["sc"]])
            r = me.estimate_n_samples_for_target_variance(fl(op["tgt"]), v, n_ops, n_levels=len(op["sc"]))
            e["r"] = [as_int(x) for x in r]
        elif o == "levels":
            f = me.calc_level_params if op["f"] == "calc" else me.determine_level_parameters
            rng = [float(op["b"]) ** op["e0"], float(op["b"]) ** op["e1"]]
            r = f(rng, op["n"]) if op["f"] == "calc" else f(op["n"], rng)
            e["r"] = [rat(np.ravel(x)[0]) if np.size(x) == 1 else [9, 0] for x in r]
        elif o == "ns":
            a = {"geo": [2 ** op["e0"], 2 ** op["e1"]], "one": op["x0"], "none": None, "full": op["full"], "any": [op["x0"], op["x1"]]}[op["how"]]
            e["r"] = [as_int(x) for x in me.determine_n_samples(op["n"], a)]
        elif o == "vec":
            e["r"] = [as_int(x) for x in me.determine_sample_vec(op["coll"], op["n"], op["v"] if op["given"] else None)]
        elif o == "dom":
            st, specs = storage([[fl(x) for x in xs] for xs in op["ls"]], op["kind"])
            q = make_root_quantity(st, specs)["q"][1.0]["x"][0, 0]
            f = me.Estimate.estimate_domain if op["how"] == "static" else me.estimate_domain
            e["r"] = [rat(x) for x in f(q, st, quantile=fl(op["p"]))]
        elif o == "reg":
            steps = [2.0 ** -(op["e0"] + op["s"] * k) for k in range(op["L"])]
            M = len(op["co"])
            raw = np.zeros((op["L"], M + 1))
            for c in range(M):
                co = op["co"][c]
                for k in range(op["L"]):
                    if op["free"]:
                        raw[k, c + 1] = fl(op["raw"][c][k])
                    else:
                        h = -(op["e0"] + op["s"] * k)
                        raw[k, c + 1] = co["v0"] if k == 0 else 2.0 ** (co["A"] + co["B"] * h + (co["C"] * h * h if op["s"] == 1 else 0))
            costs = [float(k + 1) for k in range(op["L"])]
            est = me.Estimate(None, Steps(steps, costs), None)
            v, n_ops = est.estimate_diff_vars_regression([10 + k for k in range(op["L"])], raw_vars=raw)
            e["r"] = [[rat(x) for x in row] for row in v]
            if list(n_ops) != costs:
                e["r"] = []
    except Exception:
        e["raised"] = exc_name()
    return e


def main():
    silence()
    np.seterr(all="ignore")
    run_all(load_input()["progs"], lambda p: [{"op": "begin", "raised": ""}] + [run1(o) for o in p])


main()
