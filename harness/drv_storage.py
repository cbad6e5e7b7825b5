"""Replays storage programs generated from the specification into the real storages
and records, after every operation, everything the readers return."""
from drvlib import *
import shutil
import common
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec, ChunkSpec

TABLE = [0.0, -0.0, float("nan"), float("inf"), -1.0 / 3, 5e-324, 1e300, float("-inf"), 2.0 ** 53 + 2]
MSGS = ["", "Traceback: error", "x" * 1500, "řešič selhal – Ω", "semi;colon\nnewline\t'quote' \"dq\"", "日本語" * 400]
SHAPES = [  # result formats: list of (name, unit, shape, times, locations)
    [("q", "m", (1, 1), [1.0], ["a"])],
    [("q", "m", (2, 1), [1.0, 2.5], ["10", "20"])],
    [("length", "m", (1, 2), [0.0], ["left"]), ("width", "mm", (2, 2), [0.0], ["right"])],
    [("q", "", (1, 1), [0.1, 1 / 3, 1e7 + 0.1], ["abc", "def"])],
    [("flux", "m3/s", (3, 1), [0.5], [(0.1, 1 / 3, 2.5), (4, 5, 1e6 + 0.3)])],
    # long result vectors: the HDF storage cuts a level into chunks of two (four, eight) samples
    [("field", "m", (64, 1), [1.0, 2.0, 3.0, 4.0], ["aa", "bb", "cc", "dd"])],
    [("field", "m", (8, 8), [1.0, 2.0, 3.0, 4.0], ["aa", "bb"])],
    [("field", "m", (64, 1), [1.0, 2.0], ["aa"])],
    # quantities with different numbers of times and locations, long names, other characters
    [("q", "m", (1, 1), [1.0, 2.0, 3.0], ["a"]), ("p", "Pa", (2, 1), [1.0], ["a", "b"])],
    [("p", "Pa", (2, 1), [1.0], ["a", "b", ""]), ("tok \u0159eky", "m\u00b3/s", (1, 1), [0.5, 2.0], ["hladina"]), ("n" * 60, "m", (1, 1), [1.0], ["l" * 70])],
]


def fmt(shape_i, other=None):
    specs = [QuantitySpec(n, u, s, list(t), list(l)) for n, u, s, t, l in SHAPES[shape_i % len(SHAPES)]]
    if other is not None:
        s = specs[-1]
        if other == 0:
            s.name = s.name + "_x"
        elif other == 1:
            s.unit = "kg"
        elif other == 2:
            s.times = [t + 1 for t in s.times]
        elif other == 3:
            s.shape = (s.shape[0], s.shape[1] + 1)
        elif other == 4:
            l0 = s.locations[0]
            s.locations = ["zz"] + list(s.locations[1:]) if isinstance(l0, str) else [(9., 9., 9.)] + list(s.locations[1:])
        elif other == 5:
            # same locations in another order describe different data
            s.locations = list(s.locations[::-1]) if len(s.locations) > 1 else ["zz"]
        elif other == 6:
            s.locations = list(s.locations) + ["zz9" if isinstance(s.locations[0], str) else (9., 9., 8.)]
        elif other == 7:
            s.times = list(s.times) + [77.0]
        elif other == 8:
            specs = specs + [QuantitySpec("one_more", "m", s.shape, s.times, s.locations)]
    return specs


def fmt_tok(specs):
    out = []
    for s in specs:
        locs = [l if isinstance(l, str) else "(" + ",".join("%r" % float(x) for x in l) + ")" for l in s.locations]
        out.append("%s|%s|%s|%s|%s" % (s.name, s.unit, [int(x) for x in s.shape], [float(t) for t in s.times], locs))
    return " & ".join(out)


def msize(shape_i):
    return sum(int(np.prod(s[2])) * len(s[3]) * len(s[4]) for s in SHAPES[shape_i % len(SHAPES)])


def vec(l, i, part, code, m, gen):
    v = np.array([(l + 1) * 1000.0 + i * 7 + part * 0.5 + k / 3.0 + gen * 0.001 for k in range(m)])
    if code > 0:
        v[code % m] = TABLE[code % len(TABLE)]
    return v


def sid(l, i):
    return "L{:02d}_S{:07d}".format(l, i)


class Episode:
    def __init__(self, prog, base):
        self.prog, self.base = prog, base
        self.ev = []
        self.path = None
        self.gen = 0

    def params(self, nl):
        return [[round(1.0 / (k + 1), 6)] for k in range(nl)]

    def observe(self, st, nl, kind):
        o = {"err": []}

        def get(name, f, default):
            try:
                o[name] = f()
            except Exception:
                o["err"].append(name + ": " + exc_name())
                o[name] = default

        def lst(f):
            def g():
                x = list(f())
                x = x + [0] * (nl - len(x)) if kind == "mem" else x
                return [as_int(v) for v in x]
            return g
        get("nfin", lst(st.n_finished), [])
        get("ncoll", lst(st.get_n_collected), [])
        get("nlev", lambda: as_int(st.get_n_levels()), -1)
        get("lparams", lambda: ",".join("%r" % float(np.ravel(p)[0]) for p in st.get_level_parameters()), "?")
        get("fmt", lambda: fmt_tok(st.load_result_format()), "?")

        def sched():
            d = st.load_scheduled_samples()
            return [[str(x) for x in d.get(l, [])] for l in range(nl)]
        get("sched", sched, [])
        if kind == "hdf":
            get("unf", lambda: sorted(str(x) for x in st.unfinished_ids()), ["?"])
            get("fail", lambda: [[str(x) for x in st.failed_samples()[str(l)]] for l in range(nl)], [])
        else:
            o["unf"], o["fail"] = [], []
        get("nops", lambda: [common.rat(x) for x in (list(st.get_n_ops()) + [0] * nl)[:nl]], [])

        def pairs():
            p = st.sample_pairs()
            res = []
            for l in range(nl):
                a = p[l] if l < len(p) else []
                if len(np.shape(a)) != 3:
                    res.append([] if np.size(a) == 0 else [["shape%s" % (np.shape(a),)]])
                else:
                    res.append([[vtok(a[:, j, k]) for k in range(a.shape[2])] for j in range(a.shape[1])])
            return res
        get("pairs", pairs, [])

        def chunks():
            """for every level that holds data: the chunks and what is read through them"""
            res = []
            for l in range(nl):
                rows = []
                if l < len(o["ncoll"]) and o["ncoll"][l] > 0:
                    for c in st.chunks(level_id=l):
                        a = st.sample_pairs_level(c)
                        rows.append({"a": as_int(c.chunk_slice.start), "b": as_int(c.chunk_slice.stop), "l": as_int(c.level_id),
                                     "d": [[vtok(a[:, j, k]) for k in range(a.shape[2])] for j in range(a.shape[1])]})
                res.append(rows)
            return res
        get("chunks", chunks, [])

        def first():
            res = []
            for l in range(nl):
                d = []
                if l < len(o["ncoll"]) and o["ncoll"][l] > 1:
                    c = next(iter(st.chunks(level_id=l, n_samples=o["ncoll"][l] - 1)))
                    a = st.sample_pairs_level(c)
                    d = [[vtok(a[:, j, k]) for k in range(a.shape[2])] for j in range(a.shape[1])]
                res.append(d)
            return res
        get("first", first, [])
        return o

    def run(self):
        st = None
        for op in self.prog:
            e = dict(op)
            raised = ""
            try:
                if op["op"] == "new":
                    self.kind, self.nl, self.si = op["kind"], op["nl"], op["shape"]
                    self.m = msize(self.si)
                    if self.kind == "mem":
                        st = Memory()
                    else:
                        self.path = os.path.join(self.base, "s.hdf5")
                        if os.path.exists(self.path):
                            os.remove(self.path)
                        st = SampleStorageHDF(self.path)
                    st.save_global_data(level_parameters=self.params(self.nl), result_format=fmt(self.si))
                    e["op"] = "begin"
                    e["fmt"] = fmt_tok(fmt(self.si))
                    e["lparams"] = ",".join("%r" % float(p[0]) for p in self.params(self.nl))
                elif op["op"] == "sched":
                    ids = [sid(op["l"] - 1, i) for i in op["ids"]]
                    e["ids"] = ids
                    st.save_scheduled_samples(op["l"] - 1, ids)
                elif op["op"] == "save":
                    self.gen += 1
                    succ, fail, es, ef = {}, {}, [], []
                    for b in op["s"]:
                        l = b["l"] - 1
                        if not b["rows"] and self.kind == "mem":
                            continue
                        rows, er = [], []
                        for r in b["rows"]:
                            f = vec(l, r["id"], 0, r["f"][0], self.m, self.gen)
                            c = np.zeros(self.m) if l == 0 else vec(l, r["id"], 1, r["c"][0], self.m, self.gen)
                            rows.append((sid(l, r["id"]), (f, c)))
                            er.append({"id": sid(l, r["id"]), "f": vtok(f), "c": vtok(c)})
                        succ[l] = rows
                        es.append({"l": b["l"], "rows": er})
                    for b in op["f"]:
                        l = b["l"] - 1
                        if not b["ids"] and self.kind == "mem":
                            continue
                        fail[l] = [(sid(l, i), MSGS[(i + self.gen) % len(MSGS)]) for i in b["ids"]]
                        ef.append({"l": b["l"], "ids": [x[0] for x in fail[l]]})
                    e["s"], e["f"] = es, ef
                    st.save_samples(succ, fail)
                elif op["op"] == "nops":
                    st.save_n_ops([(r["l"] - 1, [r["t"] / 2.0, r["n"]]) for r in op["r"]])
                    e["r"] = [{"l": r["l"], "t": common.rat(r["t"] / 2.0), "n": r["n"]} for r in op["r"]]
                elif op["op"] == "clear":
                    st.clear_failed()
                elif op["op"] == "reopen":
                    st = None
                    st = SampleStorageHDF(self.path)
                    if op["how"] == "global":
                        st.save_global_data(level_parameters=self.params(self.nl), result_format=fmt(self.si))
                    elif op["how"] == "otherformat":
                        e["refused"] = "no"
                        self.gen += 1
                        k = self.gen % 9
                        e["variant"] = ["name", "unit", "times", "shape", "location", "reordered", "more locations", "more times", "more quantities"][k]
                        try:
                            st.save_global_data(level_parameters=self.params(self.nl), result_format=fmt(self.si, other=k))
                        except Exception:
                            e["refused"] = "yes"
                    e.setdefault("refused", "-")
            except Exception:
                raised = exc_name()
            e["raised"] = raised
            if st is None:
                e["obs"] = {"err": ["no storage"], "nfin": [], "ncoll": [], "nlev": -1, "lparams": "?", "fmt": "?", "sched": [],
                            "unf": [], "fail": [], "nops": [], "pairs": [], "chunks": [], "first": []}
            else:
                e["obs"] = self.observe(st, self.nl, self.kind)
            if e["op"] == "begin":
                pass
            self.ev.append(e)
            if raised:
                break
        return self.ev


def main():
    silence()
    progs = load_input()["progs"]
    base = os.environ["VERIF_SCRATCH"]
    out = []
    for p in progs:
        out.append(Episode(p, base).run())
    save_output({"episodes": out})


main()
