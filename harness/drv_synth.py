"""The synthetic simulations and the statistical tests."""
from drvlib import *
import common, pickle
import scipy.stats as st
from mlmc.quantity.quantity_spec import QuantitySpec
import mlmc.sim.synth_simulation as ss
import mlmc.tool.stats_tests as tests

rat = common.rat


def fl(r):
    return r[0] / r[1]


def mil(x):
    x = float(x)
    if not np.isfinite(x) or abs(x) > 2000:
        return 10 ** 9
    return int(round(x * 1000000))


class NanDistr:
    """a distribution whose draws are now and then not numbers"""
    def rvs(self, size=1):
        y = self.random_state.normal(size=size)
        y[y > 0.8] = np.nan
        return y


DISTR = {"norm": lambda: st.norm(), "norm13": lambda: st.norm(loc=-2, scale=3), "uniform": lambda: st.uniform(1, 5), "lognorm": lambda: st.lognorm(s=0.7), "nan": NanDistr}


def formats(fm):
    return [QuantitySpec("q%d" % i, "m", {4: (2, 2), 3: (1, 3)}.get(fm["nc"], (fm["nc"], 1)), [float(t) for t in range(fm["nt"])], ["%d_%d" % (i, j) for j in range(fm["nl"])]) for i in range(fm["nq"])]


def make(op):
    base = ss.SynthSimulation if op["kind"] == "base" else ss.SynthSimulationWorkspace
    cls = base
    if op["fmt"] == "own":
        cls = type("Own", (base,), {"result_format": lambda self: formats(op["fm"])})
    if op["noconf"]:
        return cls()
    if op["kind"] == "ws":
        d = os.path.join(os.environ["VERIF_SCRATCH"], "ws")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        path = os.path.join(d, "synth_sim_config.yaml")
        with open(path, "w") as fh:
            fh.write("distr: norm\nnan_fraction: %r\n" % fl(op["f"]))
        return cls({"config_yaml": path})
    conf = {"distr": DISTR[op["distr"]](), "complexity": op["c"]}
    if not (op["nof"] and op["f"][0] == 0):
        conf["nan_fraction"] = fl(op["f"])
    return cls(conf)


def episode(prog):
    out = [{"op": "begin"}]
    sim, levels, news = {}, {}, {}
    for op in prog:
        e = dict(op)
        e["raised"] = ""
        out.append(e)
        k = op["op"]
        try:
            if k == "new":
                e.update(needs=False, format=[])
                s = sim[op["kind"]] = make(op)
                levels[op["kind"]], news[op["kind"]] = [], op
                e["needs"] = bool(s.need_workspace)
                e["format"] = [dict(name=q.name, unit=q.unit, shape=list(q.shape), times=list(q.times), locs=list(q.locations)) for q in s.result_format()] if op["fmt"] == "default" else []
            elif k == "level":
                e.update(task=[9, 0], nops=[9, 0], needs=False, common=False)
                s, h = sim[op["kind"]], fl(op["hf"])
                lv = s.level_instance([h], [fl(op["hc"])])
                levels[op["kind"]].append(lv)
                log = np.log(max(1 / h, 2.0))
                e["task"] = rat(lv.task_size / (1 if op["kind"] == "ws" else log))
                e["nops"] = rat(s.n_ops_estimate(h) / log)
                e["needs"] = bool(lv.need_sample_workspace)
                e["common"] = [os.path.basename(f) for f in (lv.common_files or [])] == ["synth_sim_config.yaml"]
            elif k == "calc":
                e["r"] = []
                cls = ss.SynthSimulation if op["kind"] == "base" else ss.SynthSimulationWorkspace
                for i in range(op["cnt"]):
                    seed = op["seed"] + i
                    conf = levels[op["kind"]][op["lev"] - 1].config_dict
                    if op["pickled"]:
                        conf = pickle.loads(pickle.dumps(conf))
                    d = DISTR[news[op["kind"]]["distr"]]() if op["kind"] == "base" else st.norm(loc=1, scale=2)
                    d.random_state = np.random.RandomState(seed)
                    x = d.rvs(size=news[op["kind"]]["fm"]["nc"])
                    r = {"raised": "", "fine": [], "coarse": [], "isnan": bool(np.any(np.isnan(x))), "x": [mil(v) for v in x], "s": [mil(np.sqrt(1e-4 + abs(v))) for v in x]}
                    try:
                        f, c = cls.calculate(conf, seed)
                        r["fine"], r["coarse"] = [mil(v) for v in f], [mil(v) for v in c]
                    except Exception:
                        r["raised"] = exc_name()
                    e["r"].append(r)
            elif k == "fn":
                e.update(y=0, y0=0, s=mil(np.sqrt(1e-4 + abs(op["x"]))))
                cls = ss.SynthSimulation if op["kind"] == "base" else ss.SynthSimulationWorkspace
                e["y"], e["y0"] = mil(cls.sample_fn(float(op["x"]), fl(op["h"]))), mil(cls.sample_fn_no_error(float(op["x"]), fl(op["h"])))
            elif k in ("t", "chi2"):
                f, v = (tests.t_test, op["mu"]) if k == "t" else (tests.chi2_test, op["v"])
                s = np.array([fl(x) for x in op["s"]])
                e["pass"] = True
                try:
                    f(fl(v), s) if op["dflt"] else f(fl(v), s, max_p_val=fl(op["m"]))
                except AssertionError:
                    e["pass"] = False
            elif k == "anova":
                e["answer"] = bool(tests.anova([np.array([fl(x) for x in g]) for g in op["g"]]))
        except Exception:
            e["raised"] = exc_name()
    return out


def main():
    silence()
    np.seterr(all="ignore")
    run_all(load_input()["progs"], episode)


main()
