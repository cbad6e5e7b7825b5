"""The simulation with an external program: stand-ins for gmsh and flow123d, the rest is real."""
from drvlib import *
import common
from mlmc.tool import flow_mc, gmsh_io

rat = common.rat
SCR = os.environ["VERIF_SCRATCH"]
GMSH = '''#!/bin/sh
while [ $# -gt 0 ]; do case "$1" in -clscale) s=$2; shift;; -o) o=$2; shift;; esac; shift; done
cp "$FLOWFAKE/mesh_$s.msh" "$o"
'''
FLOW = '''#!/bin/sh
while [ $# -gt 0 ]; do case "$1" in -i) i=$2; shift;; -s) s=$2; shift;; -o) o=$2; shift;; esac; shift; done
n=$(cat "$FLOWFAKE/n"); n=$((n+1)); echo $n > "$FLOWFAKE/n"
cp "$i/fields_sample.msh" "$FLOWFAKE/run$n.msh"
cp "$s" "$FLOWFAKE/run$n.yaml"
[ -f "$FLOWFAKE/plan$n" ] && cp "$FLOWFAKE/plan$n" "$o/water_balance.yaml"
exit 0
'''
TMPL = "mesh: <mesh_file>\nconductivity: <conductivity>\ndt: <timestep_h1>\ndt2: <timestep_h2>\n"


def write_mesh(m, p):
    with open(p, "w") as fh:
        fh.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n%d\n" % len(m["phys"]))
        for q in m["phys"]:
            fh.write('%d %d "%s"\n' % (1 if q["bc"] else 2, q["id"], q["n"]))
        fh.write("$EndPhysicalNames\n$Nodes\n%d\n" % len(m["nodes"]))
        for n in m["nodes"]:
            fh.write("%d %s\n" % (n["id"], " ".join(str(x) for x in n["x"])))
        fh.write("$EndNodes\n$Elements\n%d\n" % len(m["elems"]))
        for x in m["elems"]:
            fh.write("%d %d %d %s %s\n" % (x["id"], x["t"], len(x["tags"]), " ".join(map(str, x["tags"])), " ".join(map(str, x["nodes"]))))
        fh.write("$EndElements\n")


def extract(op, e):
    p = os.path.join(SCR, "e.msh")
    write_mesh(op["m"], p)
    r = flow_mc.FlowSim.extract_mesh(p)
    e["r"] = [{"id": int(i), "p": [rat(x) for x in pt], "reg": int(g)} for i, pt, g in zip(r["ele_ids"], r["points"], r["point_region_ids"])]
    if len(r["ele_ids"]) != len(r["points"]) or len(r["points"]) != len(r["point_region_ids"]):
        e["r"] = []
    e["map"] = [{"n": str(k), "id": int(v)} for k, v in r["region_map"].items()]


def subst(op, e):
    a, b = os.path.join(SCR, "t.in"), os.path.join(SCR, "t.out")
    with open(a, "w") as fh:
        fh.write("".join("<%s>" % t["s"] if t["p"] else t["s"] for t in op["toks"]))
    e["used"] = [str(x) for x in flow_mc.substitute_placeholders(a, b, {p["n"]: p["v"] for p in op["params"]})]
    e["r"] = open(b).read()


def fl(r):
    return r[0] / r[1]


def plans(op, d):
    for f in os.listdir(d):
        if f.startswith(("plan", "run")):
            os.remove(os.path.join(d, f))
    with open(os.path.join(d, "n"), "w") as fh:
        fh.write("0\n")
    for k, p in enumerate(op["plan"]):
        if p["out"]:
            with open(os.path.join(d, "plan%d" % (k + 1)), "w") as fh:
                fh.write("data:\n")
                for r in p["rows"]:
                    fh.write("- {time: %d, region: %s, data: [%r, %r, 0.0]}\n" % (r["t"], r["reg"], fl(r["f"]), float(r["fin"])))


def flow(op, e):
    d = os.path.join(SCR, "flow")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "work"))
    os.environ["FLOWFAKE"] = d
    exe = {}
    for n, t in (("gmsh", GMSH), ("flow123d", FLOW)):
        exe[n] = os.path.join(d, n)
        with open(exe[n], "w") as fh:
            fh.write(t)
        os.chmod(exe[n], 0o755)
    steps = [1.0 / 2 ** k for k in range(len(op["ms"]))]
    for s, m in zip(steps, op["ms"]):
        write_mesh(m, os.path.join(d, "mesh_%s.msh" % s))
    for n, t in (("in.yaml", TMPL), ("in.geo", "//")):
        with open(os.path.join(d, n), "w") as fh:
            fh.write(t)

    def config():
        return dict(env=dict(gmsh=exe["gmsh"], flow123d=exe["flow123d"], gmsh_version=op["gv"]),
                    fields_params=dict(model=op["model"], dim=op["dim"], sigma=op["sg"], log=op["log"], corr_length=1.0, mode_no=50),
                    yaml_file=os.path.join(d, "in.yaml"), geo_file=os.path.join(d, "in.geo"), work_dir=os.path.join(d, "work"), time_factor=float(op["time"]))

    def levels(clean):
        sim = flow_mc.FlowSim(config(), clean=clean)
        return [sim.level_instance([s], [steps[k - 1] if k else 0]) for k, s in enumerate(steps)]
    ls = levels(True)
    if op["attach"]:                     # a later process, on the files prepared by the first one
        ls = levels(False)
    k = op["lev"] - 1
    lev = ls[k]
    bulk = [sum(1 for x in m["elems"] if x["tags"][0] in (10, 7)) for m in op["ms"]]
    cfg = lev.config_dict
    e["desc"] = bool(cfg["fine"]["step"] == steps[k] and cfg["coarse"]["step"] == (steps[k - 1] if k else 0) and lev.need_sample_workspace
                     and lev.task_size > 0 and all(abs(l.task_size * bulk[0] - ls[0].task_size * b) < 1e-12 for l, b in zip(ls, bulk)))

    def calc(seed, tag):
        plans(op, d)
        w = os.path.join(d, "sample_" + tag)
        os.makedirs(w)
        os.chdir(w)
        try:
            r, failed = flow_mc.FlowSim.calculate(cfg, seed), ""
        except Exception:
            r, failed = None, exc_name() or "exception"
        finally:
            os.chdir(SCR)
        runs = []
        for n in range(1, int(open(os.path.join(d, "n")).read()) + 1):
            g = gmsh_io.GmshIO(os.path.join(d, "run%d.msh" % n))
            y = open(os.path.join(d, "run%d.yaml" % n)).read()
            names = sorted(g.element_data)
            v = {}
            for f in names:
                v = {int(i): float(x[0]) if len(x) == 1 else float("nan") for i, x in g.element_data[f][0.0][1].items()}
            runs.append((names, v, y))
        return r, failed, runs
    r, failed, runs = calc(op["seed"], "a")
    _, _, runs2 = calc(op["seed"], "b")
    _, _, runs3 = calc(op["seed"] + 1, "c")
    allv = [x for _, v, _ in runs for x in v.values()]

    def cls(x):
        return next(j for j, y in enumerate(allv) if abs(x - y) <= 1e-6 * (1 + abs(x)) or (x != x and y != y))
    e["failed"], e["runs"] = failed, []
    for names, v, y in runs:
        mesh = next((i + 1 for i, s in enumerate(steps) if ("mesh: %s\n" % os.path.join(d, "work", "l_step_%s_common_files" % s, "mesh.msh")) in y), 0)
        s = steps[mesh - 1]
        want = "conductivity: !FieldElementwise {mesh_data_file: $INPUT_DIR$/fields_sample.msh, field_name: conductivity}\ndt: %s\ndt2: %s\n" % (op["time"] * s, op["time"] * s * s)
        e["runs"].append({"names": names, "mesh": mesh, "tmpl": y.endswith(want), "v": [{"id": i, "c": cls(x), "r": rat(x)} for i, x in v.items()]})
    same = lambda a, b: len(a) == len(b) and all(set(p[1]) == set(q[1]) and all(abs(p[1][i] - q[1][i]) <= 1e-6 * (1 + abs(p[1][i])) for i in p[1]) for p, q in zip(a, b))
    e["again"], e["other"] = same(runs, runs2), not same(runs, runs3)
    e["res"] = [] if r is None else [rat(x[0]) if len(x) == 1 else [99, 0] for x in map(np.ravel, r)]


OPS = {"extract": extract, "flow": flow, "subst": subst}


def episode(prog):
    out = [{"op": "begin", "raised": ""}]
    for op in prog:
        e = dict(op)
        e["raised"] = ""
        try:
            OPS[op["op"]](op, e)
        except Exception:
            e["raised"] = exc_name()
        out.append(e)
    return out


def main():
    silence()
    np.seterr(all="ignore")
    run_all(load_input()["progs"], episode)


main()
