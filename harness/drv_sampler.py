"""Runs sampler programs generated from the specification with the real Sampler, the real
storages and a scripted sampling pool; records every interaction."""
from drvlib import *
import re
import common
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sampling_pool import SamplingPool
from mlmc.sampler import Sampler
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation


import mlmc.sampler as ms
import time as real_time


class SlowClock:
    """The time module as the sampler sees it while simulations take long: every look at a clock is
    half a minute later than the one before."""
    on, lag = False, 0.0

    def __getattr__(self, name):
        f = getattr(real_time, name)
        if name not in ("perf_counter", "monotonic", "time"):
            return f

        def tick():
            if SlowClock.on:
                SlowClock.lag += 30.0
            return f() + SlowClock.lag
        return tick


if hasattr(ms, "time"):
    ms.time = SlowClock()


class Dead(BaseException):
    pass


def pid(sid):
    m = re.match(r"^L(\d+)_S(\d+)$", str(sid))
    return {"l": int(m.group(1)) + 1, "k": int(m.group(2))} if m else {"l": -1, "k": -1}


class Sim(Simulation):
    def level_instance(self, fine, coarse):
        return LevelSimulation(config_dict={"fine": list(fine), "coarse": list(coarse)}, task_size=1)

    def result_format(self):
        return [QuantitySpec("q", "m", (2, 1), [1.0], ["here"])]

    @staticmethod
    def calculate(config, seed):
        r = np.random.RandomState(seed)
        u = r.random_sample()
        f = np.array([config["fine"][0], u])
        c = np.array([config["coarse"][0], u / 2])
        return f, c


class Ctl:
    """counts the calls that cross the sampler's boundary; the process may end before any of them"""
    def __init__(self):
        self.left = None

    def hit(self):
        if self.left is not None:
            self.left -= 1
            if self.left <= 0:
                self.left = None
                raise Dead()


class Pool(SamplingPool):
    def __init__(self, ctl, log, submitted):
        self.ctl, self.log = ctl, log
        self.out = []          # ids in order of scheduling
        self.sub = submitted   # id -> level_sim, survives restarts of a durable pool
        self.script = []
        self.told = []
        self.durable = True
        super().__init__()

    def schedule_sample(self, sample_id, level_sim):
        self.ctl.hit()
        cf = level_sim.config_dict

        def one(v):
            v = np.ravel(v)
            return as_int(v[0]) if len(v) == 1 else -77
        self.log.append({"op": "p_sched", "id": pid(sample_id), "lev": as_int(level_sim._level_id),
                         "fine": one(cf["fine"]), "coarse": one(cf["coarse"])})
        self.out.append(str(sample_id))
        self.sub[str(sample_id)] = level_sim

    def have_permanent_samples(self, sample_ids):
        self.told = [str(s) for s in sample_ids]
        if self.durable:
            self.out = [s for s in sorted(self.told) if s in self.sub]

    def get_finished(self):
        self.ctl.hit()
        entry = self.script.pop(0) if self.script else [[0, 1, 2]]
        ok, bad, eok, ebad, times = {}, {}, [], [], {}
        for which, status, t in entry:
            if not self.out:
                break
            sid = self.out.pop(which % len(self.out))
            lsim = self.sub[sid]
            lev = lsim._level_id
            if status:
                _, res, err, _ = SamplingPool.calculate_sample(sid, lsim)
                if err:
                    res = (np.zeros(1), np.zeros(1))
                ok.setdefault(lev, []).append((sid, (res[0], res[1])))
                eok.append({"l": lev + 1, "id": pid(sid), "f": vtok(res[0]), "c": vtok(res[1]), "err": err[-200:]})
                tt = times.setdefault(lev, [0., 0])
                tt[0] += t / 4.0
                tt[1] += 1
            else:
                bad.setdefault(lev, []).append((sid, "scripted failure of " + sid))
                ebad.append({"l": lev + 1, "id": pid(sid)})
        self.log.append({"op": "p_poll", "ok": eok, "bad": ebad, "running": len(self.out),
                         "times": [{"l": lv + 1, "t": common.rat(v[0]), "n": v[1]} for lv, v in times.items()]})
        return ok, bad, len(self.out), list(times.items())


def guarded(base, ctl, totals):
    class Guard(base):
        def save_scheduled_samples(self, level_id, samples):
            ctl.hit()
            return super().save_scheduled_samples(level_id, samples)

        def save_samples(self, successful, failed):
            ctl.hit()
            return super().save_samples(successful, failed)

        def save_n_ops(self, n_ops):
            n_ops = list(n_ops)
            ctl.hit()
            r = super().save_n_ops(n_ops)
            for lv, (t, n) in n_ops:
                o = totals.setdefault(lv, [0., 0])
                if n > 0:
                    o[0] += t
                    o[1] += n
            return r

        def clear_failed(self):
            ctl.hit()
            return super().clear_failed()
    return Guard


class Episode:
    def __init__(self, prog, base):
        self.prog, self.base, self.ev = prog, base, []
        self.ctl = Ctl()
        self.submitted, self.totals = {}, {}

    def open(self):
        if self.kind == "mem":
            return guarded(Memory, self.ctl, self.totals)()
        return guarded(SampleStorageHDF, self.ctl, self.totals)(self.path)

    def build(self, durable=True):
        self.pool = Pool(self.ctl, self.ev, self.submitted)
        self.pool.durable = durable
        self.sampler = Sampler(sample_storage=self.st, sampling_pool=self.pool, sim_factory=Sim(),
                               level_parameters=[[p] for p in self.params])

    def observe(self):
        st, nl = self.st, self.nl
        o = {"err": []}

        def get(name, f, default):
            try:
                o[name] = f()
            except Exception:
                o["err"].append(name + ": " + exc_name())
                o[name] = default

        def padded(f):
            x = [as_int(v) for v in f()]
            return x + [0] * (nl - len(x)) if self.kind == "mem" else x
        get("nfin", lambda: padded(st.n_finished), [])
        get("ncoll", lambda: padded(st.get_n_collected), [])
        get("sched", lambda: (lambda d: [[pid(x) for x in d.get(i, [])] for i in range(nl)])(st.load_scheduled_samples()), [])
        if self.kind == "hdf":
            get("unf", lambda: [pid(x) for x in st.unfinished_ids()], [pid("?")])
            get("fail", lambda: (lambda d: [[pid(x) for x in d[str(i)]] for i in range(nl)])(st.failed_samples()), [])
        else:
            o["unf"], o["fail"] = [], []
        get("nops", lambda: [common.rat(x) for x in (list(st.get_n_ops()) + [0] * nl)[:nl]], [])

        def pairs():
            p, res = st.sample_pairs(), []
            for i in range(nl):
                a = p[i] if i < len(p) else []
                if len(np.shape(a)) != 3:
                    res.append([] if np.size(a) == 0 else [["shape%s" % (np.shape(a),)]])
                else:
                    res.append([[vtok(a[:, j, k]) for k in range(a.shape[2])] for j in range(a.shape[1])])
            return res
        get("pairs", pairs, [])
        return o

    def lsched(self):
        try:
            return [as_int(v) for v in self.sampler.l_scheduled_samples()]
        except Exception:
            return [-1]

    def call(self, op):
        t = {"none": None, "zero": 0, "neg": -1.5, "small": 1e-9, "long": 1000}[op.get("t", "small")]
        SlowClock.on = op.get("t") == "none"        # a wait without a limit lasts as long as it takes
        self.pool.script = [list(p) for p in op.get("polls", [])]
        w = op["op"]
        if w == "schedule":
            self.sampler.schedule_samples(timeout=t)
        elif w == "ask":
            return self.sampler.ask_sampling_pool_for_samples(timeout=t)
        elif w == "renew":
            self.sampler.renew_failed_samples()
        elif w == "adding":
            r = self.sampler.process_adding_samples(np.array(op["est"]), add_coeff=op["coef"][0] / op["coef"][1])
            return 1 if r else 0
        return 0

    def restart(self, durable):
        e = {"op": "restart", "durable": durable, "raised": "", "obs": {"err": []}}
        try:
            if self.kind == "hdf":
                self.st = None
                self.st = self.open()
            old_ev_n = len(self.ev)
            self.build(durable)
            e["obs"] = self.observe()
        except Exception:
            e["raised"] = exc_name()
        e["told"] = [pid(x) for x in self.pool.told]
        e["out"] = [pid(x) for x in self.pool.out]
        e["lsched"] = self.lsched() if not e["raised"] else []
        self.ev.append(e)
        return e["raised"]

    def run(self):
        for op in self.prog:
            w = op["op"]
            if w == "new":
                self.kind, self.nl, self.params = op["kind"], op["nl"], op["params"]
                self.path = os.path.join(self.base, "s.hdf5")
                if os.path.exists(self.path):
                    os.remove(self.path)
                e = {"op": "begin", "kind": self.kind, "nl": self.nl, "params": self.params, "raised": "", "told": [], "nlev": -1, "obs": {"err": []}}
                try:
                    self.st = self.open()
                    self.build()
                    e["told"] = [pid(x) for x in self.pool.told]
                    e["nlev"] = as_int(self.sampler.n_levels)
                    e["obs"] = self.observe()
                except Exception:
                    e["raised"] = exc_name()
                self.ev.append(e)
            elif w in ("init", "target"):
                e = dict(op, raised="")
                try:
                    if w == "init":
                        self.sampler.set_initial_n_samples(op["arg"] if op["arg"] else None)
                    else:
                        self.sampler.set_level_target_n_samples(op["ns"])
                except Exception:
                    e["raised"] = exc_name()
                self.ev.append(e)
            elif w in ("schedule", "ask", "renew", "adding"):
                self.ev.append({"op": "call", "what": w, "est": op.get("est", []), "coef": op.get("coef", [1, 1]), "t": op.get("t", "small")})
                e = {"op": "ret", "raised": "", "value": 0, "obs": {"err": []}, "lsched": [], "nfin": []}
                try:
                    e["value"] = as_int(self.call(op))
                    e["obs"] = self.observe()
                    e["lsched"] = self.lsched()
                    e["nfin"] = [as_int(v) for v in self.sampler.n_finished_samples]
                except Exception:
                    e["raised"] = exc_name()
                self.ev.append(e)
            elif w == "restart":
                e = {"raised": self.restart(op["durable"])}
            elif w == "crash":
                inner = op["inner"]
                self.ev.append({"op": "call", "what": inner["op"], "est": inner.get("est", []), "coef": inner.get("coef", [1, 1]),
                                "t": inner.get("t", "small")})
                self.ctl.left = op["at"]
                dead, e = False, {"op": "ret", "raised": "", "value": 0, "obs": {"err": []}, "lsched": [], "nfin": []}
                try:
                    e["value"] = as_int(self.call(inner))
                    self.ctl.left = None
                    e["obs"] = self.observe()
                    e["lsched"] = self.lsched()
                    e["nfin"] = [as_int(v) for v in self.sampler.n_finished_samples]
                except Dead:
                    dead = True
                except Exception:
                    e["raised"] = exc_name()
                self.ctl.left = None
                if dead:
                    self.st = None
                    self.st = self.open()
                    e = {"op": "dead", "obs": self.observe(), "raised": "",
                         "ops": [[common.rat(self.totals.get(i, [0, 0])[0]), self.totals.get(i, [0, 0])[1]] for i in range(self.nl)]}
                self.ev.append(e)
                if not e["raised"]:
                    e = {"raised": self.restart(op["durable"])}
            if e["raised"]:
                break
        return self.ev


def main():
    silence()
    base = os.environ["VERIF_SCRATCH"]
    out = [Episode(p, base).run() for p in load_input()["progs"]]
    save_output({"episodes": out})


main()
