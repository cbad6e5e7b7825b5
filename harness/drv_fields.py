"""Field sets by region, single random fields, mesh files."""
from drvlib import *
import re, itertools
import common
from mlmc.random import correlated_field as cf
from mlmc.tool import gmsh_io, flow_mc
import gstools

rat = common.rat
counter = itertools.count(0)
drawn = [0]


def fl(r):
    return r[0] / r[1]


class TestField(cf.RandomFieldBase):
    """every realization draws a new number and takes a different value in every point"""
    def _initialize(self, **kwargs):
        pass

    def _sample(self):
        d = drawn[0]
        drawn[0] += 1
        return 16.0 * (self.points[:, 0] + 8 * self.points[:, 1]) + d


FN = {"sum": lambda *a: sum(a), "lin": lambda *a: 3 * a[0] - a[-1], "prod": lambda *a: a[0] * 2 if len(a) == 1 else a[0] * a[1]}
RMAP = {"ra": 11, "rb": 7, "rc": 30, "other": 2}


def num(r):
    v = fl(r)
    return int(v) if v == int(v) else v


class Sets:
    def __init__(self):
        self.sets, self.fields = {}, []

    def run(self, op, e):
        o = op["op"]
        if o == "defs":
            rfs, self.fields = {}, []
            for d in op["defs"]:
                regs = d["regs"][0] if len(d["regs"]) == 1 else list(d["regs"])
                if d["kind"] == "const":
                    f = cf.Field(d["n"], num(d["c"]), regions=regs)
                elif d["kind"] == "rand":
                    # fields given the same random field share the object, as in the documented example
                    if d["rf"] not in rfs:
                        rfs[d["rf"]] = TestField(mu=fl(d["mu"]), sigma=fl(d["sg"]))
                    f = cf.Field(d["n"], rfs[d["rf"]], regions=regs)
                else:
                    f = cf.Field(d["n"], FN[d["fn"]], [p["n"] if p["n"] else num(p["c"]) for p in d["par"]], regions=regs)
                self.fields.append(f)
            self.names = [d["n"] for d in op["defs"]]
        elif o == "new":
            self.sets[op["s"]] = cf.Fields(self.fields)
        elif o == "points":
            pts = np.array(op["pts"], dtype=float)
            if op["regs"][0] == "none":
                self.sets[op["s"]].set_points(pts, region_map=RMAP)
            else:
                self.sets[op["s"]].set_points(pts, [RMAP[r] for r in op["regs"]], RMAP)
        elif o == "outer":
            self.sets[op["s"]].set_outer_fields(op["names"])
        elif o == "sample":
            e["lo"] = drawn[0]
            r = self.sets[op["s"]].sample()
            e["hi"] = drawn[0]
            e["r"] = [{"n": k, "v": [rat(x) for x in np.ravel(v)]} for k, v in r.items() if k in self.names or not k.startswith("const_")]


def classes(v):
    v = np.ravel(v)
    return [int(next(j for j in range(i + 1) if abs(v[j] - x) <= 1e-6 * (1 + abs(x)))) if np.isfinite(x) else -1 - i for i, x in enumerate(v)]


def direction(op):
    """the unit vector along which the points of a statistics lie"""
    u = np.zeros(op["dim"])
    u[op["axis"] - 1] = 1.0
    if op["aniso"] == 2 and op["dim"] > 1:
        u[op["axis"] - 1], u[op["axis"] % op["dim"]] = 0.6, -0.8
    return u


def make_real(op):
    k, sg = op["kind"], op["sg"]
    if op.get("flow"):
        model = {"svd": "svd", "fourier": "fourier"}.get(k, op["exp"])
        fs = flow_mc.create_corr_field(model, float(op["L"]), op["dim"], op.get("log", False), float(sg), 100)
        assert [f.name for f in fs.fields] == ["conductivity"]
        return fs.fields[0].correlated_field
    if k == "gs":
        m = (gstools.Exponential if op["exp"] == "exp" else gstools.Gaussian)(dim=op["dim"], len_scale=float(op["L"]))
        return cf.GSToolsSpatialCorrelatedField(m, log=op.get("log", False), sigma=sg, mode_no=100)
    cls = cf.SpatialCorrelatedField if k == "svd" else cf.FourierSpatialCorrelatedField
    kw = {} if k == "svd" or "axis" not in op else {"mode_no": 200}
    if op.get("aniso"):
        u = direction(op)
        t = np.eye(op["dim"]) / 49.0 + np.outer(u, u) * (1.0 / op["L"] ** 2 - 1 / 49.0)
        kw["aniso_correlation"] = t
    return cls(corr_exp=1.5 if op["exp"] == "1.5" else op["exp"], dim=op["dim"], corr_length=float(op["L"]), mu=float(op["mu"]), sigma=float(sg) if np.isscalar(sg) else 1.0, log=op.get("log", False), **kw)


def draw(f, op, seed):
    if op["kind"] == "gs":
        f.change_srf(seed)
    return np.ravel(f.sample())


def close(a, b):
    return bool(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-6 * (1 + np.abs(b))))


def real(op, e):
    f = make_real(op)
    p1, p2 = np.array(op["pts"], float), np.array(op["pts2"], float)
    np.random.seed(op["seed"])
    f.set_points(p1)
    a = draw(f, op, op["seed"])
    b = draw(f, op, op["seed"] + 1)
    f.set_points(p2)
    c = draw(f, op, op["seed"])
    g = make_real(op)
    np.random.seed(op["seed"])
    g.set_points(p1)
    a2 = draw(g, op, op["seed"])
    e["c1"], e["c2"] = classes(a), classes(c)
    e["pos"] = bool(np.all(a > 0) and np.all(b > 0) and np.all(c > 0))
    e["again"] = close(a, a2)
    e["fresh"] = not close(a, b)
    e["v0"] = [rat(np.log(x) if op["log"] else x) for x in np.concatenate([a, b, c])] if op["sg"] == 0 else []


def stat(op, e):
    np.random.seed(op["seed"])
    n, den = op["n"], float(op["den"])
    pts = np.arange(n)[:, None] * float(op["L"]) * direction(op)[None, :]
    f = make_real(dict(op, sg=op["sg"][0] / den, mu=op["mu"] / den))
    if op["arr"]:
        f.set_points(pts, sigma=np.array(op["sg"], float) / den)
    else:
        f.set_points(pts)
    if op["kind"] == "gs":
        f.mode_no = 300
    k = 4000 if op["kind"] == "svd" else 2000
    s = np.array([draw(f, op, op["seed"] * 10000 + i) for i in range(k)]) * den
    if s.shape != (k, n):
        raise ValueError("shape")
    m, sd = s.mean(axis=0), s.std(axis=0)
    c = (s - m).T @ (s - m) / k / np.outer(sd, sd)
    e["mean"] = [int(round(1000 * x)) for x in m]
    e["sd"] = [int(round(1000 * x)) for x in sd]
    e["cor"] = [[int(round(1000 * x)) for x in r] for r in c]


def cov(op, e):
    den, n = float(op["den"]), op["n"]
    f = make_real(dict(op, sg=op["sg"] / den))
    f.set_points(np.arange(n)[:, None] * float(op["L"]) * direction(op)[None, :])
    np.random.seed(1)
    c = np.array(f.cov_matrix(), float)
    e["cov"] = [[int(round(1000 * x)) for x in r] for r in c]
    L, ev = f.svd_dcmp(n_terms_range=(op["min"], op["max"]))
    # spectral norm of what is left out, in thousandths of the largest eigenvalue; what the documented precision allows
    e["res"] = int(np.ceil(1000 * np.linalg.norm(c - L @ L.T, 2) / np.linalg.norm(c, 2) - 1e-6))
    e["eps"] = 20


def law(op, e):
    one = lambda v: fl(v[0]) if op["one"] else np.array([fl(x) for x in v])
    e["r"] = [rat(x) for x in np.ravel(cf.positive_to_range(one(op["x"]), fl(op["a"]), fl(op["b"])))]
    e["k"] = [rat(x) for x in np.ravel(cf.kozeny_carman(one(op["por"]), op["m"], fl(op["f"]), fl(op["visc"])))]


def base(op, e):
    f = TestField()
    e["r"] = []
    for c in op["calls"]:
        r = {"raised": "", "v": [], "lo": 0}
        kw = {}
        for k, n in (("mu", "mu"), ("sg", "sigma")):
            if c[k]:
                v = float(c[k][0]) if len(c[k]) == 1 else [float(x) for x in c[k]]
                kw[n] = v if op["how"] == "list" or len(c[k]) == 1 else np.array(v)
        try:
            f.set_points(np.array(c["pts"], float), **kw)
            r["lo"] = drawn[0]
            r["v"] = [rat(x) for x in f.sample()]
        except Exception:
            r["raised"] = exc_name()
        e["r"].append(r)


FL = [0.0, -1.5, 1 / 3, 1e-17, 1e22, 123456789.123, 5e-324, -2.0e-5, 7.0, 0.1, -1.0 / 7, 2.0 ** 60]


def tok(x):
    for i, v in enumerate(FL):
        if v == x and type(x) in (float, np.float64):
            return i + 1
    return -1


def path(n):
    return os.path.join(os.environ["VERIF_SCRATCH"], n)


def build(m):
    g = gmsh_io.GmshIO()
    g.nodes = {n["id"]: [FL[t - 1] for t in n["x"]] for n in m["nodes"]}
    g.elements = {x["id"]: (x["t"], list(x["tags"]), list(x["nodes"])) for x in m["elems"]}
    g.physical = {p["n"]: (p["id"], p["dim"]) for p in m["phys"]}
    return g


def text(m, how):
    """the same mesh as another program would write it"""
    nodes = "%d\n" % len(m["nodes"]) + "".join("%d %s\n" % (n["id"], " ".join(repr(FL[t - 1]) for t in n["x"])) for n in m["nodes"])
    if how == "text1":
        els = "%d\n" % len(m["elems"]) + "".join("%d %d %d %d %d %s\n" % (x["id"], x["t"], x["tags"][0], x["tags"][1], len(x["nodes"]), " ".join(map(str, x["nodes"]))) for x in m["elems"])
        return "$NOD\n" + nodes + "$ENDNOD\n$ELM\n" + els + "$ENDELM\n"
    els = "%d\n" % len(m["elems"]) + "".join("%d %d %d %s %s\n" % (x["id"], x["t"], len(x["tags"]), " ".join(map(str, x["tags"])), " ".join(map(str, x["nodes"]))) for x in m["elems"])
    phys = "$PhysicalNames\n%d\n" % len(m["phys"]) + "".join('%d %d "%s"\n' % (p["dim"], p["id"], p["n"]) for p in m["phys"]) + "$EndPhysicalNames\n"
    if how == "mixed":
        return "$Comments\nmesh of nothing\n$EndComments\n$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" + nodes + "$EndNodes\n" + phys + "$Elements\n" + els + "$EndElements\n$Periodic\n1\n0 1 2 3 4 5 6\n$EndPeriodic\n"
    return "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n" + phys + "$Nodes\n" + nodes + "$EndNodes\n$Elements\n" + els + "$EndElements\n"


def seen(r):
    return {"nodes": [{"id": int(k), "x": [tok(x) for x in v]} for k, v in r.nodes.items()],
            "elems": [{"id": int(k), "t": int(v[0]), "tags": [int(x) for x in v[1]], "nodes": [int(x) for x in v[2]]} for k, v in r.elements.items()],
            "phys": [{"n": str(k), "id": int(v[0]), "dim": int(v[1])} for k, v in r.physical.items()]}


def words(p):
    """the lines of a file as words: as an integer, as a number of the table, as text"""
    out = []
    for ln in open(p):
        ws = []
        for w in re.findall(r'"[^"]*"|\S+', ln):
            r = {"i": -1, "f": 0, "s": w.strip('"')}
            if w[0] != '"':
                try:
                    r["i"] = int(w)
                except ValueError:
                    pass
                try:
                    r["f"] = max(tok(float(w)), 0)
                except ValueError:
                    pass
            ws.append(r)
        if ws:
            out.append(ws)
    return out


def render(lines):
    q = lambda w: str(w["i"]) if w["i"] >= 0 else repr(FL[w["f"] - 1]) if w["f"] else w["s"] if w["s"][:1] == "$" or w["s"] == "2.2" else '"%s"' % w["s"]
    return "".join(" ".join(q(w) for w in ln) + "\n" for ln in lines)


def fromfile(op, e):
    p = path("f.msh")
    with open(p, "w") as fh:
        fh.write(render(op["file"]))
    r = gmsh_io.GmshIO(p)
    e["r"] = seen(r)
    e["d"] = [{"n": str(k), "i": int(i), "t": tok(x[0]), "v": [{"id": int(n), "v": [tok(y) for y in row]} for n, row in x[1].items()]}
              for k, v in r.element_data.items() for i, x in v.items()]


def mesh(op, e):
    m, p = op["m"], path("m.msh")
    if op["how"] == "own":
        g = build(m)
        g.filename = p
        g.write_ascii()
    elif op["how"] == "self":
        g = build(m)
        with open(p, "w") as fh:
            g.write_ascii(fh)
    else:
        with open(p, "w") as fh:
            fh.write(text(m, op["how"]))
    r = gmsh_io.GmshIO(p)
    if op["again"]:
        p2 = path("m2.msh")
        with open(p2, "w") as fh:
            r.write_ascii(fh)
        r = gmsh_io.GmshIO(p2)
    e["r"] = seen(r)
    # the file the code wrote last, if any
    e["file"] = words(p2 if op["again"] else p) if op["again"] or op["how"] in ("self", "own") else []


def data(op, e):
    g = build(op["m"])
    p = path("d.msh")
    fields = {f["n"]: np.array([[FL[t - 1] for t in row] for row in f["v"]]) for f in op["fields"]}
    if op["how"] == "own":
        g.filename = p
        g.write_fields(None, op["ids"], fields)
    else:
        g.write_fields(p, op["ids"], fields)
    r = gmsh_io.GmshIO(p)
    e["r"] = [{"n": str(k), "v": [{"id": int(i), "v": [tok(x) for x in row]} for i, row in v[0.0][1].items()]} for k, v in r.element_data.items()]
    e["file"] = words(p)


def dtime(op, e):
    p = path("t.msh")
    data = ""
    # the steps of the fields alternate, as a program that writes as it computes would write them
    steps = [(k, f, s) for f in op["fields"] for k, s in enumerate(f["s"])]
    for _, f, s in sorted(steps, key=lambda x: x[0]):
        data += '$ElementData\n1\n"%s"\n1\n%r\n3\n%d\n%d\n%d\n' % (f["n"], FL[s["t"] - 1], s["i"], len(s["v"][0]), len(op["ids"]))
        data += "".join("%d %s\n" % (i, " ".join(repr(FL[t - 1]) for t in row)) for i, row in zip(op["ids"], s["v"])) + "$EndElementData\n"
    m = text(op["m"], "text2")
    head, body = m[:m.index("$PhysicalNames")], m[m.index("$PhysicalNames"):]
    with open(p, "w") as fh:
        fh.write(head + (data + body if op["first"] else body + data))
    r = gmsh_io.GmshIO(p)
    e["r"] = seen(r)
    e["d"] = [{"n": str(k), "i": int(i), "t": tok(x[0]), "v": [{"id": int(n), "v": [tok(y) for y in row]} for n, row in x[1].items()]}
              for k, v in r.element_data.items() for i, x in v.items()]


OPS = {"real": real, "stat": stat, "base": base, "cov": cov, "law": law, "mesh": mesh, "data": data, "dtime": dtime, "file": fromfile}


def episode(prog):
    s = Sets()
    drawn[0] = 0
    out = [{"op": "begin", "raised": ""}]
    for op in prog:
        e = dict(op)
        e["raised"] = ""
        try:
            OPS[op["op"]](op, e) if op["op"] in OPS else s.run(op, e)
        except Exception:
            e["raised"] = exc_name()
        out.append(e)
        if e["raised"] and op["op"] not in OPS:
            break
    return out


def main():
    silence()
    np.seterr(all="ignore")
    run_all(load_input()["progs"], episode)


main()
