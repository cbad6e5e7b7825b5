"""Drives the real batch pool and its worker program with a stand-in batch system
(qsub / qstat executables in a scratch directory, jobs run by forked copies of this process)."""
from drvlib import *
import re, shlex, signal, stat, subprocess, time, runpy, glob
from mlmc.sampling_pool import SamplingPool
from mlmc.sampling_pool_pbs import SamplingPoolPBS
import mlmc.tool.pbs_job          # imported once, the forked workers reuse it
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.level_simulation import LevelSimulation
from mlmc.sim.simulation import Simulation

BASE = os.environ["VERIF_SCRATCH"]
BIN = os.path.join(BASE, "bin")
os.makedirs(BIN, exist_ok=True)
SRV = [None]

QSUB = """#!/bin/bash
S=%(srv)s
echo x >> $S/tries
if [ -e $S/qsub_down ]; then echo "qsub: cannot connect to server" >&2; exit 1; fi
k=$(cat $S/next); echo $((k+1)) > $S/next; n=$(sed -n ${k}p $S/ids)
cp "$1" $S/job_$n
echo "$1" >> $S/subs
echo Q > $S/state_$n
echo "$n.standin-server.example.org"
"""
QSTAT = """#!/bin/bash
S=%(srv)s
if [ -e $S/qstat_down ]; then echo "qstat: cannot connect to server standin-server" >&2; exit 1; fi
rc=0; head=""
for a in "$@"; do
  case "$a" in -*) continue;; esac
  i=${a%%%%.*}
  if [ ! -e $S/state_$i ]; then echo "qstat: Unknown Job Id $i.standin-server" >&2; rc=153; continue; fi
  if [ -z "$head" ]; then head=1
    echo "Job id                 Name             User              Time Use S Queue"
    echo "---------------------  ---------------- ----------------  -------- - -----"
  fi
  s=$(cat $S/state_$i)
  t="00:00:0$((i %% 10))"; [ "$s" = Q ] && t="       0"
  printf "%%-22s %%-16s %%-16s %%s %%s %%s\\n" "$i.standin-serv*" F_mlmc user_F "$t" "$s" F_queue
done
exit $rc
"""


def pbs_number(j):
    """number of the j-th job in the batch system; growing, and many of them end with an earlier one"""
    h = "" if j <= 2 else str([1, 10, 11, 20, 21][(j - 3) // 2 % 5] + 100 * ((j - 3) // 10)) if j > 12 else ["1", "10", "11", "20", "21"][(j - 3) // 2]
    return int(h + ("98" if j % 2 else "99"))


def server(d):
    os.makedirs(d)
    SRV[0] = d
    for n, t in (("qsub", QSUB), ("qstat", QSTAT)):
        p = os.path.join(BIN, n)
        with open(p, "w") as fh:
            fh.write(t % {"srv": d})
        os.chmod(p, 0o755)
    with open(os.path.join(d, "next"), "w") as fh:
        fh.write("1")
    with open(os.path.join(d, "ids"), "w") as fh:
        fh.write("".join("%d\n" % pbs_number(j) for j in range(1, 3000)))
    for f in ("tries", "subs"):
        open(os.path.join(d, f), "w").close()


def lines(f):
    with open(os.path.join(SRV[0], f)) as fh:
        return fh.read().splitlines()


def sid(l, s):
    return "L{:02d}_S{:07d}".format(l - 1, s)


def pid(i):
    m = re.match(r"L(\d+)_S(\d+)$", str(i))
    return {"l": int(m.group(1)) + 1, "s": int(m.group(2))} if m else {"l": 99, "s": 0}


def value(l, s, o):
    f = np.array([l * 1000.0 + s + 0.1, 1.0 / (3 + s)])
    c = np.array([s * 7.3 - l, 1e-300 * (s + 1)])
    if o == "nan":
        f[0], c[1] = np.nan, -np.inf
    return f, c


# ------------------------------------------------ the simulation inside the worker
TABLE, CALLS, GATE = {}, None, {"stop": None, "n": 0}


class Sim(Simulation):
    def level_instance(self, fine, coarse):
        raise NotImplementedError

    @staticmethod
    def result_format():
        return [QuantitySpec("q", "m", (2, 1), [1.0], ["here"])]

    @staticmethod
    def calculate(config, seed):
        if CALLS is not None:
            gate()
            GATE["n"] += 1
        with open(config["table"]) as fh:
            table = json.load(fh)
        t = table.get(str(int(seed)))
        here = os.getcwd()
        rec = {"seed": str(int(seed)), "l": t[0] if t else 99, "s": t[1] if t else 0,
               "right": bool(t) and config["level"] == t[0],
               "dir": (not config["ws"]) or (bool(t) and os.path.basename(here) == sid(t[0], t[1]) and os.path.dirname(here) == config["out"]
                                             and os.path.exists("common.txt"))}
        if CALLS is not None:
            with open(CALLS, "a") as fh:
                fh.write(json.dumps(rec) + "\n")
        if not t:
            raise ValueError("unknown seed")
        if config["ws"] and rec["dir"]:
            with open("note.txt", "w") as fh:
                fh.write(sid(t[0], t[1]))
        l, s, o = t
        if o == "raise":
            raise ValueError("boom \u00e9 %d %d" % (l, s))
        f, c = value(l, s, o)
        if o == "short":
            return [(f, c[:1]), (f[:1], c), (f[:1], c[:1]), (f, np.append(c, c))][s % 4]
        return f, c


def gate():
    """the worker stops before computing the next sample once it reached its allowance"""
    while True:
        with open(GATE["file"]) as fh:
            t = fh.read().split()
        if t and (t[0] == "go" or GATE["n"] < int(t[0])):
            return
        if t and GATE["n"] >= int(t[0]):
            if not os.path.exists(GATE["file"] + ".at%d" % GATE["n"]):
                open(GATE["file"] + ".at%d" % GATE["n"], "w").close()
        time.sleep(0.002)


class Run:
    def __init__(self, prog, real):
        self.prog, self.real = prog, real
        self.cfg = prog["cfg"]
        self.dir = tempfile.mkdtemp(prefix="pbs", dir=BASE)
        server(os.path.join(self.dir, "srv"))
        self.work = os.path.join(self.dir, "work")
        os.makedirs(self.work)
        self.common = os.path.join(self.dir, "common.txt")
        with open(self.common, "w") as fh:
            fh.write("common")
        self.table = {}
        self.workers = {}
        self.outcome = {}
        self.jobs = []

    def save_table(self):
        p = os.path.join(self.dir, "table.json")
        with open(p + ".tmp", "w") as fh:
            json.dump(self.table, fh)
        os.replace(p + ".tmp", p)

    def pool(self, debug):
        os.chdir(self.dir)
        p = SamplingPoolPBS(work_dir=self.work, debug=debug)
        s = self.cfg["set"]
        kw = {}
        if s["flags"]:
            kw["select_flags"] = list(s["flags"])
        if s["std"]:
            kw["std_out_err"] = s["std"]
        if s["py"] or self.real:
            kw["python"] = sys.executable
        p.pbs_common_setting(n_nodes=s["n"], n_cores=s["c"], mem=s["mem"], queue=s["queue"], walltime=s["wall"], pbs_name=s["name"],
                             optional_pbs_requests=list(s["reqs"]), env_setting=list(s["env"]), **kw)
        return p

    def script(self, text):
        """the parts of a job script, as the batch system and the shell read them"""
        opts, reqs, env, late, wd, commands, py = [], [], [], 0, False, False, ""
        for ln in text.splitlines():
            if ln.startswith("#PBS"):
                late += commands
                w = ln.split(None, 2)
                opts.append((w + ["", ""])[1:3])
                reqs.append(ln)
            elif ln.strip() and not ln.startswith("#"):
                commands = True
                if re.match("MLMC_WORKDIR=", ln):
                    wd = shlex.split(ln)[0] == "MLMC_WORKDIR=" + self.work and not env
                elif "-m mlmc.tool.pbs_job" in ln:
                    py = "given" if ln.split()[0] == sys.executable else ln.split()[0]
                elif ln in self.cfg["set"]["env"] and not py:
                    env.append(ln)
        return {"opts": opts, "reqs": reqs, "env": env, "late": late, "wd": wd, "py": py}

    def level(self, l):
        ls = LevelSimulation(config_dict={"level": l, "table": os.path.join(self.dir, "table.json"), "ws": self.cfg["ws"],
                                          "out": os.path.join(self.work, "output")},
                             task_size=self.cfg["sizes"][l - 1] / 8.0, need_sample_workspace=self.cfg["ws"],
                             common_files=[self.common] if self.cfg["ws"] else None)
        ls._calculate, ls._result_format, ls._level_id = Sim.calculate, Sim.result_format, l - 1
        return ls

    def submissions(self):
        return len(lines("subs"))

    # ------------------------------------------------------------- operations
    def call(self, e, fn):
        t0, s0 = len(lines("tries")), self.submissions()
        r = None
        e["raised"] = ""
        try:
            with limit(60):
                r = fn()
        except BaseException:
            e["raised"] = exc_name()
        e["tries"], e["subs"] = len(lines("tries")) - t0, self.submissions() - s0
        return r

    def sched(self, op):
        e = dict(op)
        i = sid(op["l"], op["s"])
        self.table[str(int(SamplingPool.compute_seed(i)))] = [op["l"], op["s"], op["o"]]
        self.outcome[(op["l"], op["s"])] = op["o"]
        self.save_table()
        self.call(e, lambda: self.p.schedule_sample(i, self.level(op["l"])))
        return e

    def env(self, op):
        f = os.path.join(SRV[0], op["q"] + "_down")
        if op["up"]:
            if os.path.exists(f):
                os.remove(f)
        else:
            open(f, "w").close()
        return dict(op)

    def forget(self, op):
        f = os.path.join(SRV[0], "state_%d" % pbs_number(op["j"]))
        if os.path.exists(f):
            os.remove(f)
        return dict(op)

    def state(self, j, s):
        with open(os.path.join(SRV[0], "state_%d" % pbs_number(j)), "w") as fh:
            fh.write(s + "\n")

    def workop(self, op):
        """the j-th submitted job works: m more samples, and then is stopped, killed or ends"""
        j = op["j"]
        e = {"op": "work", "j": j, "how": op["how"], "calls": [], "rc": 0, "found": True, "script": {}}
        script = os.path.join(SRV[0], "job_%d" % pbs_number(j))
        if not os.path.exists(script):
            e["found"] = False
            return e
        with open(script) as fh:
            e["script"] = self.script(fh.read())
        w = self.workers.get(j)
        if w is None:
            calls = os.path.join(self.dir, "calls%d" % j)
            open(calls, "w").close()
            w = self.workers[j] = {"calls": calls, "read": 0, "gate": os.path.join(self.dir, "gate%d" % j), "n": 0, "pid": None}
        if op["how"] == "end":
            allow = "go"
        else:
            w["n"] += op["m"]
            allow = str(w["n"])
        with open(w["gate"] + ".tmp", "w") as fh:
            fh.write(allow)
        os.replace(w["gate"] + ".tmp", w["gate"])
        if w["pid"] is None:
            self.state(j, "R")
            with open(script) as fh:
                text = fh.read()
            if self.real and op["how"] == "end":
                r = subprocess.run(["bash", script], env=dict(os.environ, VERIF_CALLS=w["calls"], VERIF_GATE=w["gate"]), stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL)
                w["rc"] = r.returncode
                w["pid"] = -1
            else:
                cmd = [l for l in text.splitlines() if "-m mlmc.tool.pbs_job" in l][-1]
                av = shlex.split(cmd.split("mlmc.tool.pbs_job", 1)[1].split(">")[0])
                pidn = os.fork()
                if pidn == 0:
                    try:
                        os.setpgid(0, 0)
                        global CALLS
                        CALLS = w["calls"]
                        GATE["file"] = w["gate"]
                        GATE["n"] = 0
                        os.chdir(self.work)
                        sys.argv = ["pbs_job"] + av
                        sys.modules.pop("mlmc.tool.pbs_job", None)
                        runpy.run_module("mlmc.tool.pbs_job", run_name="__main__")
                        os._exit(0)
                    except BaseException:
                        sys.stderr.write(exc_name() + "\n")
                        os._exit(3)
                w["pid"] = pidn
        # wait for it
        t = time.time()
        if w["pid"] > 0 and "rc" not in w:
            while time.time() - t < 120:
                p, st = os.waitpid(w["pid"], os.WNOHANG)
                if p:
                    w["rc"] = os.waitstatus_to_exitcode(st)
                    break
                if op["how"] != "end" and os.path.exists(w["gate"] + ".at%d" % w["n"]):
                    break
                time.sleep(0.002)
            else:
                os.kill(w["pid"], signal.SIGKILL)
                os.waitpid(w["pid"], 0)
                w["rc"] = 99
        if op["how"] == "kill" and w["pid"] > 0 and "rc" not in w:
            os.kill(w["pid"], signal.SIGKILL)
            os.waitpid(w["pid"], 0)
            w["rc"] = 0
        with open(w["calls"]) as fh:
            got = [json.loads(l) for l in fh.read().splitlines()]
        e["calls"] = got[w["read"]:]
        w["read"] = len(got)
        e["rc"] = w.get("rc", 0)
        if op["how"] in ("end", "kill"):
            self.state(j, "F")
            w["pid"] = -1
        return e

    def poll(self, op):
        e = {"op": "poll", "ok": [], "bad": [], "times": [], "running": -1}
        r = self.call(e, lambda: self.p.get_finished())
        if e["raised"]:
            return e
        ok, bad, running, times = r
        e["running"] = as_int(running)
        for lev, res in (ok or {}).items():
            for i, v in res:
                k = pid(i)
                o = self.outcome.get((k["l"], k["s"]), "?")
                f, c = value(k["l"], k["s"], o)
                try:
                    ex = vtok(f) == vtok(v[0]) and vtok(c) == vtok(v[1])
                except Exception:
                    ex = False
                e["ok"].append({"l": as_int(lev) + 1, "k": k, "exact": ex})
        for lev, res in (bad or {}).items():
            for i, msg in res:
                k = pid(i)
                o = self.outcome.get((k["l"], k["s"]), "?")
                g = isinstance(msg, str) and len(msg) > 0
                if g and o == "raise" and self.was_computed(k):
                    g = "boom \u00e9 %d %d" % (k["l"], k["s"]) in msg
                e["bad"].append({"l": as_int(lev) + 1, "k": k, "msg": g})
        for lev, (t, n) in times or []:
            e["times"].append({"l": as_int(lev) + 1, "n": as_int(n), "sane": bool(0 <= float(t) < 200)})
        return e

    def was_computed(self, k):
        """by the job it was last put in"""
        return (k["l"], k["s"]) in self.computed

    def restart(self, op):
        e = {"op": "restart", "keep": op["keep"], "told": [k for k in op["told"] if (k["l"], k["s"]) not in self.delivered], "raised": ""}
        try:
            self.p = self.pool(debug=op["keep"])
            self.p.have_permanent_samples([sid(k["l"], k["s"]) for k in e["told"]])
        except Exception:
            e["raised"] = exc_name()
        return e

    def ws(self):
        e = {"op": "ws", "failed": [], "kept": [], "own": [], "contents": True}
        out = os.path.join(self.work, "output")

        def ls(d, name):
            for x in sorted(os.listdir(d)) if os.path.isdir(d) else []:
                if re.match(r"L\d+_S\d+$", x):
                    e[name].append(pid(x))
                    n = os.path.join(d, x, "note.txt")
                    if not os.path.exists(n) or open(n).read() != x or not os.path.exists(os.path.join(d, x, "common.txt")):
                        e["contents"] = False
        ls(out, "own")
        ls(os.path.join(out, "failed"), "failed")
        ls(os.path.join(out, "several_successful"), "kept")
        return e

    def run(self):
        ev = [{"op": "begin", "set": dict(self.cfg["set"], py=self.cfg["set"]["py"] or self.real), "nl": self.cfg["nl"], "sizes": self.cfg["sizes"], "debug": self.cfg["debug"], "ws": self.cfg["ws"], "raised": ""}]
        self.computed, self.delivered = set(), set()
        try:
            self.p = self.pool(self.cfg["debug"])
        except Exception:
            ev[0]["raised"] = exc_name()
            return ev
        restarted = killed = False
        try:
            for op in self.prog["ops"]:
                if op["op"] == "sched":
                    self.computed.discard((op["l"], op["s"]))
                    self.delivered.discard((op["l"], op["s"]))
                    ev.append(self.sched(op))
                elif op["op"] == "bulk":
                    for s in range(op["n"]):
                        ev.append(self.sched({"op": "sched", "l": op["l"], "s": op["s"] + s, "o": "ok"}))
                elif op["op"] == "work":
                    e = self.workop(op)
                    killed = killed or op["how"] != "end"
                    self.computed |= {(c["l"], c["s"]) for c in e["calls"]}
                    ev.append(e)
                elif op["op"] == "poll":
                    ev.append(self.poll(op))
                    self.delivered |= {(x["k"]["l"], x["k"]["s"]) for x in ev[-1]["ok"] + ev[-1]["bad"]}
                elif op["op"] == "restart":
                    restarted = True
                    ev.append(self.restart(op))
                else:
                    ev.append(getattr(self, op["op"])(op))
            if self.cfg["ws"] and not restarted and not killed and not self.real:
                ev.append(self.ws())
        finally:
            for w in self.workers.values():
                if w["pid"] and w["pid"] > 0:
                    try:
                        os.kill(w["pid"], signal.SIGKILL)
                        os.waitpid(w["pid"], 0)
                    except (ProcessLookupError, ChildProcessError):
                        pass
            os.chdir(BASE)
            shutil.rmtree(self.dir, ignore_errors=True)
        return ev


if "VERIF_CALLS" in os.environ:      # inside a job script run as a real process
    CALLS, GATE["file"] = os.environ["VERIF_CALLS"], os.environ["VERIF_GATE"]


def main():
    silence()
    os.environ["PATH"] = BIN + os.pathsep + os.environ["PATH"]
    inp = load_input()
    run_all(inp["progs"], lambda p: Run(p, p.get("real", False)).run())
    os._exit(0)


if __name__ == "__main__":
    import drv_pbs          # the simulation class must be importable by real job processes
    drv_pbs.main()
