"""Replays programs over quantities into the real code: builds the expressions, evaluates
them chunk by chunk, estimates their means; records what the user sees."""
from drvlib import *
import gc
import common
from drvq import ChunkedMemory
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec, ChunkSpec
import mlmc.quantity.quantity as mq
from mlmc.quantity.quantity import Quantity, make_root_quantity
import mlmc.quantity.quantity_estimate as qe
import mlmc.moments as mm
from mlmc.estimator import Estimate

rat = common.rat


def fl(r):
    return float("nan") if r[1] == 0 else r[0] / r[1]


def num(r):
    """a user writes whole numbers as ints and others as floats"""
    return r[0] if r[1] == 1 else r[0] / r[1]


def seq(a):
    return [rat(x) for x in np.ravel(a)]


def moments_obj(m):
    cls = {"legendre": mm.Legendre, "monomial": mm.Monomial}[m["kind"]]
    return cls(m["size"], domain=(fl(m["a"]), fl(m["b"])), safe_eval=m["safe"])


def const(op):
    c = [num(x) for x in op["c"]]
    f = op["form"]
    if f == "num":
        return c[0]
    if f == "npf":
        return np.float64(c[0])
    if f == "array":
        return np.array(c, dtype=float)
    return c


UF = {"maximum": np.maximum, "minimum": np.minimum, "+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide,
      "%": np.remainder, "absolute": np.absolute, "negative": np.negative, "square": np.square, "floor": np.floor}
LG = {"and": np.logical_and, "or": np.logical_or, "xor": np.logical_xor}
import operator
PYOP = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod,
        "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
RED = {"maximum": np.max, "minimum": np.min, "+": np.add.reduce}


def pykey(k):
    if k["k"] == "str":
        return k["s"]
    if k["k"] == "time":
        return num(k["t"])
    items = []
    for it in k["key"]:
        if it["k"] == "i":
            items.append(it["v"])
        elif it["k"] == "e":
            items.append(Ellipsis)
        else:
            n = lambda x: None if x == 99 else x
            items.append(slice(n(it["a"]), n(it["b"]), None if it["st"] == 1 else it["st"]))
    return items[0] if len(items) == 1 else tuple(items)


class Episode:
    def __init__(self, prog, base):
        self.prog, self.base, self.ev, self.q = prog, base, [], {}
        self.n = 0

    def put(self, q):
        self.n += 1
        self.q[self.n] = q

    def store(self, l, samples):
        k0 = self.nid.get(l, 0)
        ids = ["L%02d_S%07d" % (l, k0 + i) for i in range(len(samples))]
        self.nid[l] = k0 + len(samples)
        self.st.save_scheduled_samples(l, ids)
        rows = []
        for i, s in zip(ids, samples):
            f = np.array([fl(x) for x in s[0]])
            c = np.array([fl(x) for x in s[1]]) if len(s) > 1 else np.zeros(len(f))
            rows.append((i, (f, c)))
        self.st.save_samples({l: rows}, {})

    def new(self, op):
        self.nid = {}
        self.other = None
        specs = [QuantitySpec(s["name"], "m", tuple(s["shape"]), [num(t) for t in s["times"]], list(s["locs"])) for s in op["specs"]]
        if op["kind"] == "hdf":
            path = os.path.join(self.base, "q.hdf5")
            if os.path.exists(path):
                os.remove(path)
            self.st = SampleStorageHDF(path)
        elif op["chunk"] > 0:
            self.st = ChunkedMemory()
            self.st.size = op["chunk"]
        else:
            self.st = Memory()
        self.st.save_global_data(level_parameters=[[1.0 / (k + 1)] for k in range(op["nl"])], result_format=specs)
        for l in range(op["nl"]):
            self.store(l, op["data"][l])
        self.nl = op["nl"]
        self.specs = specs
        self.put(make_root_quantity(self.st, specs))

    def levels(self, q):
        out = []
        for l in range(self.nl):
            rows = []
            for c in self.st.chunks(level_id=l):
                a = np.asarray(q.samples(c))
                if a.dtype == bool and a.ndim == 1:
                    rows += [bool(x) for x in a]
                elif a.ndim == 3:
                    rows += [[seq(a[:, j, p]) for p in range(a.shape[2])] for j in range(a.shape[1])]
                else:
                    rows.append(["shape%s" % (a.shape,)])
            out.append(rows)
        return out

    def mean(self, m):
        r = {"ns": [as_int(x) for x in m.n_samples], "rm": [as_int(x) for x in m.n_rm_samples],
             "lm": [seq(x) for x in m.l_means], "lv": [seq(x) for x in m.l_vars], "mean": seq(m.mean), "var": seq(m.var),
             "shape": [int(x) for x in np.shape(m.mean)]}
        return r

    def make(self, op):
        o, q = op["op"], self.q
        if o == "idx":
            return q[op["a"]][pykey(op["key"])]
        if o == "bin":
            return PYOP[op["f"]](q[op["a"]], q[op["b"]])
        if o == "cbin":
            c = const(op)
            return PYOP[op["f"]](q[op["a"]], c) if op["side"] == "r" else PYOP[op["f"]](c, q[op["a"]])
        if o == "ufc":
            c = const(op)
            return UF[op["f"]](q[op["a"]], c) if op["side"] == "r" else UF[op["f"]](c, q[op["a"]])
        if o == "uf1":
            return UF[op["f"]](q[op["a"]])
        if o == "uf2":
            return UF[op["f"]](q[op["a"]], q[op["b"]])
        if o == "red":
            return RED[op["f"]](q[op["a"]], axis=0, keepdims=True)
        if o == "cmp":
            return PYOP[op["f"]](q[op["a"]], q[op["b"]])
        if o == "ccmp":
            c = const(op)
            return PYOP[op["f"]](q[op["a"]], c) if op["side"] == "r" else PYOP[op["f"]](c, q[op["a"]])
        if o == "lg":
            return np.logical_not(q[op["a"]]) if op["f"] == "not" else LG[op["f"]](q[op["a"]], q[op["b"]])
        if o == "sel":
            return q[op["a"]].select(*[q[m] for m in op["m"]])
        if o == "cat":
            qq = [q[a] for a in op["a"]]
            if op["kind"] == "array":
                return Quantity.QArray(qq if len(op["sh"]) == 1 else [qq[:2], qq[2:]])
            if op["kind"] == "ts":
                return Quantity.QTimeSeries([(num(t), x) for t, x in zip(op["keys"], qq)])
            return {"field": Quantity.QField, "dict": Quantity.QDict}[op["kind"]](list(zip(op["keys"], qq)))
        if o == "interp":
            r = q[op["a"]].time_interpolation(fl(op["t"]))
            self.levels(r)
            return r
        if o == "moments":
            return qe.moments(q[op["a"]], moments_obj(op["m"]), mom_at_bottom=op["bottom"])
        if o == "moment":
            return qe.moment(q[op["a"]], moments_obj(op["m"]), i=op["i"])
        if o == "cov":
            return qe.covariance(q[op["a"]], moments_obj(op["m"]), cov_at_bottom=op["bottom"])
        raise KeyError(o)

    def sub(self, op, e):
        q = self.q[op["q"]]
        e["draws"], e["counts"], e["estraised"] = [], [], ""
        for r in range(op["reps"]):
            s = q.subsample(list(op["vec"]))
            qe.cache_clear()
            e["draws"].append(self.levels(s))
            if r < 3:
                if r == 1:          # the same subsample quantity evaluated again
                    qe.cache_clear()
                    e["draws"].append(self.levels(s))
                try:
                    m = qe.estimate_mean(s if r != 2 else np.multiply(s, 1))
                except Exception:
                    e["estraised"] = exc_name()
                    continue
                e["counts"].append([as_int(a + b) for a, b in zip(m.n_samples, m.n_rm_samples)])

    def boot(self, op, e):
        q, m = self.q[op["q"]], moments_obj(op["m"])
        vec = None if op["all"] else list(op["vec"])
        if op["how"] == "ctor":
            est = Estimate(quantity=q, sample_storage=self.st, moments_fn=m)
            est.est_bootstrap(n_subsamples=op["n"], sample_vector=vec)
        else:
            est = Estimate(q, self.st, mm.Legendre(m.size + 1, domain=(-5.0, 7.0)))
            est.est_bootstrap(op["n"], vec, m)
        e["own"] = as_int(est.n_moments)
        rr = lambda a: [[rat(x, den=1000, tol=1e-2) for x in np.ravel(row)] for row in a]     # three digits
        e["lm"], e["lv"], e["vm"] = rr(est.mean_bs_l_means), rr(est.mean_bs_l_vars), rr(est.var_bs_l_means)
        e["pos"] = [[bool(x > 1e-9) for x in np.ravel(row)] for row in est.var_bs_l_means]

    def foreign(self, op):
        if self.other is None:
            st = Memory()
            st.save_global_data(level_parameters=[[1.0 / (k + 1)] for k in range(self.nl)], result_format=self.specs)
            n = sum(int(np.prod(s.shape)) * len(s.times) * len(s.locations) for s in self.specs)
            for l in range(self.nl):
                st.save_scheduled_samples(l, ["L%02d_S0000000" % l])
                st.save_samples({l: [("L%02d_S0000000" % l, (np.ones(n), np.ones(n)))]}, {})
            self.other = make_root_quantity(st, self.specs)
        s, q = self.specs[0], self.q[op["a"]]
        r = self.other[s.name][s.times[0]][s.locations[0]]
        x, y = (q, r) if op["side"] == "r" else (r, q)
        f = op["f"]
        if f == "+":
            return x + y
        if f == "max":
            return np.maximum(x, y)
        if f == "cmp":
            return x < y
        if f == "cat":
            return Quantity.QDict([("k1", x), ("k2", y)])
        return x.select(y > 0)

    def first(self, op, e):
        q = self.q[op["q"]]
        a = np.asarray(Estimate(q, self.st).get_level_samples(op["l"] - 1, n_samples=op["n"] or None))
        e["v"] = [[seq(a[:, j, p]) for p in range(a.shape[2])] for j in range(a.shape[1])]

    def estm(self, op, e):
        q, m = self.q[op["a"]], moments_obj(op["m"])
        other = mm.Legendre(op["m"]["size"] + 1, domain=(-5.0, 7.0))
        ctor = {"ctor": m, "set": m, "arg": None, "both": other}[op["how"]]
        est = Estimate(None if op["how"] == "set" else q, self.st, ctor)
        if op["how"] == "set":
            est.quantity = q
        kw = {} if op["how"] in ("ctor", "set") else {"moments_fn": m}
        if op["what"] == "reg":
            lv, _ = est.estimate_diff_vars_regression([10 + k for k in range(self.nl)], **kw)
            e["lv"] = [seq(x) for x in lv]
            e["own"] = as_int(est.n_moments) if op["how"] != "arg" else m.size
            if op["how"] == "both":
                e["own"] -= 1
            if est.quantity is not q:
                e["own"] = -1
        elif op["what"] == "vars":
            lv, ns = est.estimate_diff_vars(**kw)
            e["lv"], e["ns"] = [seq(x) for x in lv], [as_int(x) for x in ns]
        else:
            mean, var = est.estimate_moments(**kw) if op["what"] == "moments" else est.estimate_covariance(**kw)
            e["mean"], e["var"] = seq(mean), seq(var)

    def run(self):
        for op in self.prog:
            e = dict(op)
            e["raised"] = ""
            o = op["op"]
            try:
                if o == "new":
                    e["op"] = "begin"
                    self.new(op)
                elif o == "grow":
                    self.store(op["l"] - 1, op["more"])
                elif o == "del":
                    self.q[op["q"]] = None
                    gc.collect()
                elif o == "see":
                    e["v"] = self.levels(self.q[op["q"]])
                elif o == "est":
                    e.update(self.mean(qe.estimate_mean(self.q[op["q"]])))
                elif o == "midx":
                    m = qe.estimate_mean(self.q[op["q"]])
                    for k in op["keys"]:
                        m = m[pykey(k)]
                    e.update(self.mean(m))
                elif o == "sub":
                    self.sub(op, e)
                elif o == "foreign":
                    self.foreign(op)
                elif o == "first":
                    self.first(op, e)
                elif o == "estm":
                    self.estm(op, e)
                elif o == "boot":
                    self.boot(op, e)
                else:
                    r = None
                    try:
                        r = self.make(op)
                    finally:
                        self.put(r)
                        r = None
            except Exception:
                e["raised"] = exc_name()
            if e["op"] != "begin":
                e.pop("data", None)
            self.ev.append(e)
            if o == "new" and e["raised"]:
                break
        return self.ev


def main():
    silence()
    np.seterr(all="ignore")
    inp = load_input()
    if hasattr(mq, "RNG"):
        mq.RNG = np.random.default_rng(common.SEED)
    np.random.seed(common.SEED)
    base = os.environ["VERIF_SCRATCH"]
    run_all(inp["progs"], lambda p: Episode(p, base).run())


main()
