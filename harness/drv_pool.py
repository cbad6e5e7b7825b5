"""Drives the real local pools: completions at every instruction of a poll, whole runs,
sample workspaces, reproducibility across pools and processes."""
from drvlib import *
import re, sys, time, threading, random, multiprocessing, multiprocessing.pool, json
import common
from mlmc.sampling_pool import SamplingPool, OneProcessPool, ProcessPool, ThreadPool
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sampler import Sampler
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation

BASE = os.environ["VERIF_SCRATCH"]
CTL = os.path.join(BASE, "ctl")
os.makedirs(CTL, exist_ok=True)
MLMC = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "mlmc") + os.sep

# ---------------------------------------------------------------- completions
settled = 0
seen_settle = False
settle_cv = threading.Condition()
handler_hook = None
_orig_set = multiprocessing.pool.ApplyResult._set


def _set(self, i, obj):
    global settled, seen_settle
    hook = handler_hook
    if hook is not None:
        sys.settrace(hook)
    try:
        return _orig_set(self, i, obj)
    finally:
        if hook is not None:
            sys.settrace(None)
        with settle_cv:
            settled += 1
            seen_settle = True
            settle_cv.notify_all()


multiprocessing.pool.ApplyResult._set = _set


def wait_settled(n, timeout=20.0):
    if not seen_settle and n > 3 and timeout < 1:
        time.sleep(0.02)
        return
    with settle_cv:
        settle_cv.wait_for(lambda: settled >= n, timeout if seen_settle or n <= 3 else 0.3)


# ----------------------------------------------------------------- simulation
gates = {}     # seed -> threading.Event (threads only)


def write_status(sid, st, gated=False, sleep=0):
    seed = int(SamplingPool.compute_seed(sid))
    with open(os.path.join(CTL, "%d.st.tmp" % seed), "w") as fh:
        json.dump([st, 1 if gated else 0, sleep, sid], fh)
    os.replace(os.path.join(CTL, "%d.st.tmp" % seed), os.path.join(CTL, "%d.st" % seed))
    return seed


def expected(level_params, seed):
    fine, coarse = level_params
    u = np.random.RandomState(seed % (2 ** 32)).random_sample(2)
    f = np.array([fine * 1.5 + u[0], u[1]])
    return f, np.array([coarse * 1.5 + u[0] / 3, u[1] / 7])


class Sim(Simulation):
    WS = False
    COMMON = None

    def level_instance(self, fine, coarse):
        return LevelSimulation(config_dict={"fine": fine[0], "coarse": coarse[0], "ws": self.WS}, task_size=1,
                               need_sample_workspace=self.WS, common_files=self.COMMON)

    def result_format(self):
        return [QuantitySpec("q", "m", (2, 1), [1.0], ["here"])]

    @staticmethod
    def calculate(config, seed):
        seed = int(seed)
        with open(os.path.join(CTL, "%d.st" % seed)) as fh:
            st, gated, sleep, sid = json.load(fh)
        if config["ws"]:
            here = os.getcwd()
            with open("out.txt", "w") as fh:
                fh.write(str(seed))
            if gated:
                g = gates.get(seed)
                if g:
                    g.wait(20)
            with open("late.txt", "w") as fh:
                fh.write(str(seed))
            with open(os.path.join(CTL, "%d.ws" % seed), "w") as fh:
                json.dump([here, sorted(os.listdir(here))], fh)
        elif gated:
            g = gates.get(seed)
            if g is not None:
                g.wait(30)
            else:
                t = time.time()
                while not os.path.exists(os.path.join(CTL, "%d.go" % seed)) and time.time() - t < 30:
                    time.sleep(0.001)
        time.sleep(0.001 + sleep * 0.002)
        if st == "raise":
            raise ValueError("boom %d" % seed)
        if st == "none":
            return None
        f, c = expected((config["fine"], config["coarse"]), seed)
        if st == "wrong":
            return [(f[:1], c), (f, np.append(c, 1.0)), (f, c[:1]), (np.append(f, f), c), (f[:1], c[:1]), (np.append(f, 0.), np.append(c, 0.)),
                    (f, c[:0])][seed % 7]
        if st == "unpick":
            return (lambda: 0), (lambda: 1)
        return f, c


PARAMS = [[9.0], [5.0], [2.0], [1.0]]


def level_sims(nl, ws=False, common_files=None):
    sim = Sim()
    res = []
    for k in range(nl):
        s = Sim()
        s.WS, s.COMMON = ws, common_files
        ls = s.level_instance(PARAMS[k], [0.0] if k == 0 else PARAMS[k - 1])
        ls._calculate, ls._result_format, ls._level_id = Sim.calculate, sim.result_format, k
        res.append(ls)
    return res


def sid(k, i):
    return "L{:02d}_S{:07d}".format(k, i)


def pid(s):
    m = re.match(r"^L(\d+)_S(\d+)$", str(s))
    return {"l": int(m.group(1)) + 1, "k": int(m.group(2))} if m else {"l": -1, "k": -1}


def make_pool(kind, workers, **kw):
    if kw.get("debug") is False:      # the default
        del kw["debug"]
    if kind == "one":
        return OneProcessPool(**kw)
    if kind == "process":
        return ProcessPool(workers, **kw)
    return ThreadPool(workers, **kw)


def close_pool(pool):
    for name, v in list(vars(pool).items()):
        if isinstance(v, multiprocessing.pool.Pool):
            try:
                v.terminate()
            except Exception:
                pass


def poll_event(pool, final=False, trace=None):
    e = {"op": "poll", "final": final, "raised": "", "ok": [], "bad": [], "running": 0, "times": []}
    try:
        if trace:
            sys.settrace(trace)
        try:
            res = pool.get_finished()
        finally:
            if trace:
                sys.settrace(None)
        ok, bad, running, times = res
        e["running"] = as_int(running)
        for lev, rows in dict(ok).items():
            for s, r in rows:
                seed = int(SamplingPool.compute_seed(s))
                lev = int(lev)
                f, c = expected((PARAMS[lev][0], 0.0 if lev == 0 else PARAMS[lev - 1][0]), seed)
                try:
                    exact = vtok(r[0]) == vtok(f) and vtok(r[1]) == vtok(c)
                except Exception:
                    exact = False
                e["ok"].append({"l": lev + 1, "id": pid(s), "f": vtok(r[0]), "c": vtok(r[1]), "exact": bool(exact)})
        for lev, rows in dict(bad).items():
            for s, msg in rows:
                seed = int(SamplingPool.compute_seed(s))
                try:
                    st = json.load(open(os.path.join(CTL, "%d.st" % seed)))[0]
                except Exception:
                    st = "?"
                e["bad"].append({"l": int(lev) + 1, "id": pid(s),
                                 "msg": isinstance(msg, str) and len(msg) > 0 and (st != "raise" or "boom %d" % seed in msg)})
        for lev, (t, n) in list(times):
            e["times"].append({"l": int(lev) + 1, "n": as_int(n), "sane": bool((n == 0 and t == 0) or (n > 0 and t > 0 and t < 100))})
    except Exception:
        e["raised"] = exc_name()
    return e


# ------------------------------------------------------------------ interleaving
class Inter:
    pools = {}
    serial = 0

    def __init__(self, prog, stride, offset, maxpos):
        self.prog, self.stride, self.offset, self.maxpos = prog, stride, offset, maxpos

    def run(self):
        kind = self.prog["kind"]
        if kind not in Inter.pools:
            Inter.pools[kind] = make_pool(kind, 3)
        self.pool = Inter.pools[kind]
        self.sims = level_sims(2)
        ev = []
        at = 1 + self.offset
        n = 0
        while n < self.maxpos:
            fired, e = self.one(kind, at)
            ev += e
            n += 1
            if not fired or any(x.get("raised") for x in e):
                break
            at += self.stride
        return ev

    def one(self, kind, at):
        global handler_hook
        ev = [{"op": "begin", "nl": 2, "raised": ""}]
        smp = []
        base = settled
        released = [0]
        for grp, lst in (("pre", self.prog["pre"]), ("held", self.prog["held"])):
            for lev, st in lst:
                Inter.serial += 1
                s = sid(lev, Inter.serial)
                seed = write_status(s, st, gated=True)
                if kind == "thread":
                    gates[seed] = threading.Event()
                e = {"op": "sched", "id": pid(s), "st": st, "raised": ""}
                ev.append(e)
                try:
                    self.pool.schedule_sample(s, self.sims[lev])
                except Exception:
                    e["raised"] = exc_name()
                smp.append((grp, s, seed))

        def release(s, seed):
            ev.append({"op": "done", "id": pid(s)})
            released[0] += 1
            if kind == "thread":
                gates[seed].set()
            else:
                open(os.path.join(CTL, "%d.go" % seed), "w").close()
        for g, s, seed in smp:
            if g == "pre":
                release(s, seed)
        wait_settled(base + released[0])
        held = [(s, seed) for g, s, seed in smp if g == "held"]
        state = {"n": 0, "fired": False}

        if self.prog["dir"] == "reader":
            def inject():
                for s, seed in held:
                    release(s, seed)
                wait_settled(base + released[0], 0.08)
            main = threading.get_ident()

            def local(frame, event, arg):
                if event == "opcode" and not state["fired"]:
                    state["n"] += 1
                    if state["n"] == at:
                        state["fired"] = True
                        sys.settrace(None)
                        inject()
                return local

            def tracer(frame, event, arg):
                if state["fired"] or not frame.f_code.co_filename.startswith(MLMC):
                    return None
                frame.f_trace_opcodes = True
                return local
            e = poll_event(self.pool, trace=tracer)
            if not state["fired"]:
                ev.append(e)
                inject()
            else:
                ev.append(e)
        else:
            paused, resume = threading.Event(), threading.Event()

            def local(frame, event, arg):
                if event == "opcode" and not state["fired"]:
                    state["n"] += 1
                    if state["n"] == at:
                        state["fired"] = True
                        paused.set()
                        resume.wait(0.3)
                return local

            def tracer(frame, event, arg):
                if state["fired"] or not frame.f_code.co_filename.startswith(MLMC):
                    return None
                frame.f_trace_opcodes = True
                return local
            handler_hook = tracer
            for s, seed in held:
                release(s, seed)
            t = time.time()
            while not paused.is_set() and settled < base + released[0] and time.time() - t < 5:
                paused.wait(0.002)
            ev.append(poll_event(self.pool))
            resume.set()
            wait_settled(base + released[0])
            handler_hook = None
        wait_settled(base + released[0])
        if self.prog["again"]:
            ev.append(poll_event(self.pool))
        if not seen_settle:
            time.sleep(0.2)
        ev.append(poll_event(self.pool, final=True))
        for g, s, seed in smp:
            gates.pop(seed, None)
            for x in ("st", "go"):
                try:
                    os.remove(os.path.join(CTL, "%d.%s" % (seed, x)))
                except FileNotFoundError:
                    pass
        return state["fired"], ev


# ----------------------------------------------------------------- whole runs
def totals_storage(base, tot):
    class T(base):
        def save_n_ops(self, n_ops):
            n_ops = list(n_ops)
            r = super().save_n_ops(n_ops)
            for lv, (t, n) in n_ops:
                tot[int(lv)] = tot.get(int(lv), 0) + int(n)
            return r
    return T


def run_run(prog):
    nl, ev = prog["nl"], [{"op": "begin", "nl": prog["nl"], "raised": ""}]
    d = tempfile.mkdtemp(dir=BASE)
    tot, pool = {}, None
    e = {"op": "stored", "raised": "", "value": -1, "nok": [], "nfin": [], "vals": [], "want": [], "fail": [], "ok": [], "ntimed": []}
    try:
        with limit(60 if max(map(len, prog["st"])) < 100 else 240):
            sleeps = prog["sleeps"]
            for k in range(nl):
                for i, st in enumerate(prog["st"][k]):
                    write_status(sid(k, i), st, sleep=sleeps[(i + k) % len(sleeps)])
                    ev.append({"op": "sched", "id": pid(sid(k, i)), "st": st, "raised": ""})
            st = totals_storage(Memory, tot)() if prog["storage"] == "mem" else totals_storage(SampleStorageHDF, tot)(os.path.join(d, "s.hdf5"))
            pool = make_pool(prog["kind"], prog["workers"])
            sampler = Sampler(sample_storage=st, sampling_pool=pool, sim_factory=Sim(), level_parameters=PARAMS[:nl])
            full = [len(x) for x in prog["st"]]
            for r in range(prog["rounds"]):
                sampler.set_level_target_n_samples([int(np.ceil(n * (r + 1) / prog["rounds"])) for n in full])
                sampler.schedule_samples(timeout=None if prog["how"] == "none" else 1e-9)
            e["value"] = as_int(sampler.ask_sampling_pool_for_samples())

            def pad(x):
                x = [as_int(v) for v in x]
                return x + [0] * (nl - len(x))
            e["nok"], e["nfin"] = pad(st.get_n_collected()), pad(st.n_finished())
            if prog["storage"] == "hdf":
                e["fail"] = [pid(x) for rows in st.failed_samples().values() for x in rows]
            else:
                e["fail"] = [pid(sid(k, i)) for k in range(nl) for i, s in enumerate(prog["st"][k]) if s != "ok"]
            pairs = st.sample_pairs()
            for k in range(nl):
                a = pairs[k] if k < len(pairs) else []
                got = [] if np.size(a) == 0 else [",".join(vtok(a[:, j, q]) for q in range(a.shape[2])) for j in range(a.shape[1])]
                want = []
                for i, s in enumerate(prog["st"][k]):
                    if s == "ok":
                        f, c = expected((PARAMS[k][0], 0.0 if k == 0 else PARAMS[k - 1][0]), int(SamplingPool.compute_seed(sid(k, i))))
                        want.append(vtok(f) if k == 0 else vtok(f) + "," + vtok(c))
                e["vals"].append(sorted(got))
                e["want"].append(sorted(want))
            e["ntimed"] = [tot.get(k, 0) for k in range(nl)]
    except Exception:
        e["raised"] = exc_name()
    ev.append(e)
    if pool is not None:
        close_pool(pool)
    shutil.rmtree(d, ignore_errors=True)
    return ev


# ----------------------------------------------------------------- workspaces
def run_ws(prog):
    nl, kind = prog["nl"], prog["kind"]
    ev = [{"op": "begin", "nl": nl, "raised": ""}]
    d = tempfile.mkdtemp(dir=BASE)
    os.chdir(d)
    out = os.path.join(d, "w", "output")
    commons = []
    for i in range(prog["common"]):
        p = os.path.join(d, "common%d.dat" % i)
        with open(p, "w") as fh:
            fh.write("common %d" % i)
        commons.append(p)
    if prog["old"]:
        for q in ("failed/" + sid(0, 99), "several_successful/" + sid(0, 98), sid(0, 97)):
            os.makedirs(os.path.join(out, q))
            open(os.path.join(out, q, "old.txt"), "w").close()
    pool = None
    e = {"op": "ws", "raised": "", "debug": prog["debug"], "keepold": bool(prog["old"] and prog["debug"]),
         "oldfailed": [pid(sid(0, 99))], "oldkept": [pid(sid(0, 98))], "oldown": [pid(sid(0, 97))] if prog["old"] and prog["debug"] else [],
         "insideok": True, "commonok": True, "failed": [], "kept": [], "own": [], "contents": True, "strays": []}
    try:
        with limit(60):
            pool = make_pool(kind, prog["workers"], work_dir=os.path.join(d, "w"), debug=prog["debug"])
            sims = level_sims(nl, True, commons if commons else None)
            seeds, base, n = {}, settled, 0
            concurrent = kind == "thread" and prog["workers"] > 1
            for k in range(nl):
                for i, st in enumerate(prog["st"][k]):
                    s = sid(k, i + prog["from"])
                    seeds[s] = write_status(s, st, gated=concurrent and n == 0, sleep=1)
                    if concurrent and n == 0:
                        gates[seeds[s]] = threading.Event()
                    x = {"op": "sched", "id": pid(s), "st": st, "raised": ""}
                    ev.append(x)
                    try:
                        pool.schedule_sample(s, sims[k])
                    except Hang:
                        raise
                    except Exception:
                        x["raised"] = exc_name()
                    n += 1
            if concurrent and seeds:
                time.sleep(0.2)
                gates[list(seeds.values())[0]].set()
            if kind != "one":
                wait_settled(base + n)
                if not seen_settle:
                    time.sleep(1)
            ev.append(poll_event(pool, final=True))
            os.chdir(d)

            def listing(p):
                return sorted(os.listdir(p)) if os.path.isdir(p) else []
            e["failed"] = [pid(x) for x in listing(os.path.join(out, "failed"))]
            e["kept"] = [pid(x) for x in listing(os.path.join(out, "several_successful"))]
            e["own"] = [pid(x) for x in listing(out) if re.match(r"^L\d+_S\d+$", x)]
            e["strays"] = [x for x in listing(out) if not re.match(r"^L\d+_S\d+$", x) and x not in ("failed", "several_successful")]
            for s, seed in seeds.items():
                try:
                    cwd, files = json.load(open(os.path.join(CTL, "%d.ws" % seed)))
                except Exception:
                    cwd, files = "?", []
                if os.path.realpath(cwd) != os.path.realpath(os.path.join(out, s)):
                    e["insideok"] = False
                if any(os.path.basename(c) not in files for c in commons) or \
                   set(files) - {os.path.basename(c) for c in commons} != {"out.txt", "late.txt"}:
                    e["commonok"] = False
                for q in (os.path.join(out, "failed", s), os.path.join(out, "several_successful", s), os.path.join(out, s)):
                    if os.path.isdir(q):
                        try:
                            good = all(open(os.path.join(q, f)).read() == str(seed) for f in ("out.txt", "late.txt")) and \
                                all(open(os.path.join(q, os.path.basename(c))).read() == open(c).read() for c in commons)
                        except Exception:
                            good = False
                        if not good:
                            e["contents"] = False
                try:
                    os.remove(os.path.join(CTL, "%d.ws" % seed))
                except FileNotFoundError:
                    pass
    except Exception:
        ev.append({"op": "sched", "id": pid(sid(0, 10 ** 6)), "st": "ok", "raised": exc_name()})
        e = None
    finally:
        os.chdir(BASE)
    if e:
        ev.append(e)
    if pool is not None:
        close_pool(pool)
    shutil.rmtree(d, ignore_errors=True)
    return ev


# ------------------------------------------------------------- reproducibility
def run_repro(prog):
    nl, m = prog["nl"], prog["m"]
    ids = [(k, i) for i in range(m) for k in range(nl)]
    ev = []
    first = True
    for plan in prog["plans"]:
        ev.append({"op": "begin" if first else "fresh", "nl": nl, "raised": ""})
        first = False
        np.random.seed(plan["gseed"])
        random.seed(plan["gseed"])
        for k, i in ids:
            write_status(sid(k, i), "ok")
            ev.append({"op": "seed", "id": pid(sid(k, i)), "seed": str(int(SamplingPool.compute_seed(sid(k, i))))})
        pool = make_pool(plan["kind"], plan["workers"])
        sims = level_sims(nl)
        for o in plan["order"]:
            k, i = ids[o - 1]
            x = {"op": "sched", "id": pid(sid(k, i)), "st": "ok", "raised": ""}
            ev.append(x)
            try:
                pool.schedule_sample(sid(k, i), sims[k])
            except Exception:
                x["raised"] = exc_name()
            ev.append({"op": "done", "id": pid(sid(k, i))})
        t = time.time()
        while True:
            e = poll_event(pool)
            ev.append(e)
            if e["raised"] or e["running"] <= 0 or time.time() - t > 40:
                break
            time.sleep(0.003)
        ev.append(poll_event(pool, final=True))
        close_pool(pool)
    return ev


def run_seeds(prog):
    """seeds of many identifiers, some of them asked for again after others"""
    ev = [{"op": "begin", "nl": 1, "raised": ""}]
    rnd = random.Random(prog["salt"])
    ids = [sid(k, i) for k in range(prog["nl"]) for i in sorted(rnd.sample(range(0, prog["upto"]), prog["m"]))]
    e = {"op": "seeds", "raised": "", "seeds": [], "again": []}
    try:
        e["seeds"] = [str(int(SamplingPool.compute_seed(i))) for i in ids]
        e["again"] = list(reversed([str(int(SamplingPool.compute_seed(i))) for i in reversed(ids)]))
    except Exception:
        e["raised"] = exc_name()
    ev.append(e)
    return ev


def main():
    silence()
    inp = load_input()

    def one(p):
        os.chdir(BASE)
        if p["mode"] == "inter":
            return Inter(p, inp["stride"], inp["offset"], inp["maxpos"]).run()
        return {"run": run_run, "ws": run_ws, "repro": run_repro, "seeds": run_seeds}[p["mode"]](p)
    run_all(inp["progs"], one)
    os._exit(0)


if __name__ == "__main__":
    main()
