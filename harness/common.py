"""Shared machinery: running TLC, generating programs from the specification,
validating recorded observations against it, evidence and verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


def pick(quick, thorough):
    return thorough if THOROUGH else quick


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ scratch
_scratch = None
_scratch_lock = threading.Lock()


def scratch():
    """One scratch directory per check process, removed at exit."""
    global _scratch
    with _scratch_lock:
        if _scratch is None:
            import atexit
            _scratch = tempfile.mkdtemp(prefix="mlmcverif_")
            pid = os.getpid()

            def rm():
                if os.getpid() == pid:
                    shutil.rmtree(_scratch, ignore_errors=True)
            atexit.register(rm)
        return _scratch


def child_env(extra=None):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore",
               PYTHONPATH=REPO + os.pathsep + os.path.join(VERIF, "harness"))
    env.setdefault("TMPDIR", "/tmp")
    env.update(extra or {})
    return env


# ---------------------------------------------------------------------- TLC
TLC_JAR = "/opt/veriftools/tla/tla2tools.jar"
_tlc_n = 0


class TlcResult:
    def __init__(self, rc, out):
        out = "\n".join(l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Picked up", "TLC2 Version", "Running ", "Starting...")))
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r"Progress: (\d+) states checked, (\d+) traces generated", out)
            if m:
                self.generated = int(m[-1][0])
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            self.generated = int(m[-1])
        self.ok = rc == 0
        self.violated = re.findall(r"(?:Invariant|Action property|Property|property) (\S+) (?:is|was) violated", out)
        self.printed = [unq(l) for l in out.splitlines() if l.startswith('"@@')]

    def payloads(self, tag):
        pre = "@@" + tag + " "
        return [json.loads(p[len(pre):]) for p in self.printed if p.startswith(pre)]


def unq(line):
    """TLC prints a string value quoted with \\ escapes."""
    try:
        return json.loads(line)
    except Exception:
        return line.strip('"').replace('\\"', '"')


def tlc(module, cfg_text, defs=None, args=(), timeout=600, workers=None, heap="4g"):
    """Run TLC on spec/<module>.tla with the given configuration text.
    `defs` : extra files {name: text} put beside the module copies."""
    d = tempfile.mkdtemp(prefix="tlc", dir=scratch())      # runs of several threads never share a directory
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, text in (defs or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    with open(os.path.join(d, module + "_run.cfg"), "w") as fh:
        fh.write(cfg_text)
    w = str(workers if workers else 1)
    cmd = ["tlc", "-config", module + "_run.cfg", "-workers", w, "-metadir", os.path.join(d, "meta"),
           "-noGenerateSpecTE", *args, module + ".tla"]
    env = dict(os.environ)
    env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % heap
    env["TMPDIR"] = d
    try:
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        raise MachineryError("TLC timeout on " + module)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return TlcResult(rc, out)


def model_check(module, cfg_text, defs=None, workers=4, timeout=600, args=()):
    """Exhaustive check of the design specification. A violated invariant here is a
    machinery (specification) error, never an alarm about the code."""
    r = tlc(module, cfg_text, defs=defs, workers=workers, timeout=timeout, args=args)
    if not r.ok:
        raise MachineryError("design model %s fails:\n%s" % (module, r.out[-3000:]))
    return r


def generate(module, cfg_text, num=None, depth=None, seed=None, defs=None, timeout=300, tag="PROG"):
    """Programs produced by TLC: random behaviours (num given) or all (BFS)."""
    args = []
    if num is not None:
        args += ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed if seed is not None else SEED)]
    r = tlc(module, cfg_text, defs=defs, args=args, timeout=timeout)
    progs = r.payloads(tag)
    if not progs or "\nError: " in r.out:
        raise MachineryError("no programs generated by %s:\n%s" % (module, r.out[-3000:]))
    seen, res = set(), []
    for p in progs:
        k = json.dumps(p, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(p)
    r.progs = res
    return r


# ----------------------------------------------------------- trace validation
class Bad:
    def __init__(self, ep, idx, clauses, event=None, tlcerr=None):
        self.ep, self.idx, self.clauses, self.event, self.tlcerr = ep, idx, clauses, event, tlcerr

    def __repr__(self):
        return "episode %s event %s: %s" % (self.ep, self.idx, ",".join(self.clauses))


def validate(module, episodes, cfg_extra="", timeout=600, batch=400, defs=None, parallel=6):
    """Validate recorded episodes (lists of event dicts) with spec/<module>.tla.
    The trace module reads `trace.ndjson` (one event per line; every episode starts
    with an event whose `op` is "begin") and prints one
    @@BAD {i: line, c: [clauses]} per line that no action of the specification explains.
    Returns (list of Bad, states)."""
    chunks, cur, n = [], [], 0
    for k, ep in enumerate(episodes):
        cur.append((k, ep))
        n += len(ep)
        if n >= batch:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)
    bads, states = [], 0
    lock = threading.Lock()
    results = [None] * len(chunks)

    def work(ci):
        lines, where = [], []
        for k, ep in chunks[ci]:
            for j, ev in enumerate(ep):
                lines.append(json.dumps(ev))
                where.append((k, j))
        dd = dict(defs or {})
        dd["trace.ndjson"] = "\n".join(lines) + "\n"
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\n" + cfg_extra
        r = tlc(module, cfg, defs=dd, timeout=timeout)
        done = r.payloads("END")
        found = []
        for b in r.payloads("BAD"):
            k, j = where[b["i"] - 1]
            found.append(Bad(k, j, sorted(b["c"])))
        if not done or not r.ok:
            # the recorded data left the domain of the specification
            m = re.findall(r"l = (\d+)", r.out)
            at = int(m[-1]) if m else 1
            at = min(max(at, 1), len(where))
            if re.search(r"(java\.lang\.OutOfMemory|StackOverflow|Parsing or semantic|Could not|Unknown operator|Error: TLC threw an unexpected exception.*NullPointer)", r.out):
                raise MachineryError("trace validation of %s:\n%s" % (module, r.out[-3000:]))
            k, j = where[at - 1]
            if r.out.find("Attempted to") < 0 and r.out.find("overflow") < 0 and r.out.find("was not in the domain") < 0 \
               and r.out.find("nonexistent") < 0 and r.out.find("non-existent") < 0 and r.out.find("out of domain") < 0 \
               and r.out.find("not a") < 0 and r.out.find("Evaluating") < 0:
                raise MachineryError("trace validation of %s:\n%s" % (module, r.out[-3000:]))
            found.append(Bad(k, j, ["OutsideSpecDomain"], tlcerr=r.out[-1500:]))
        results[ci] = (found, r.distinct)

    errs = []

    def guarded(ci):
        try:
            work(ci)
        except Exception as e:
            errs.append(e)
    i = 0
    while i < len(chunks):
        ts = [threading.Thread(target=guarded, args=(ci,)) for ci in range(i, min(i + parallel, len(chunks)))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        i += parallel
        if errs:
            raise errs[0]
    for found, st in results:
        bads.extend(found)
        states += st
    for b in bads:
        b.event = episodes[b.ep][b.idx]
    return bads, states


# ----------------------------------------------------------------- rationals
def rat(x, den=20000, tol=1e-9):
    """Float -> [num, den] (exact for the small rationals the drivers use).
    Special values: [0,0] for NaN, [1,0] / [-1,0] for infinities, and a value that is no
    small rational becomes [k, 0] with |k| > 1, which no expectation of the spec equals."""
    try:
        x = float(x)
    except Exception:
        return [9999, 0]
    if x != x:
        return [0, 0]
    if x in (float("inf"), float("-inf")):
        return [1, 0] if x > 0 else [-1, 0]
    if abs(x) > 2e9:
        return [7777, 0]
    f = Fraction(x).limit_denominator(den)
    if abs(float(f) - x) > tol * max(1.0, abs(x)) or abs(f.numerator) > 2 ** 31 - 2:
        return [8888, 0]
    return [f.numerator, f.denominator]


# ------------------------------------------------------------------- drivers
def run_driver(script, payload, timeout=300, env=None, extra=()):
    """Run harness/<script> in its own process with JSON on stdin file; JSON result file back.
    On timeout the partial result (if any) is returned with hang=True."""
    d = tempfile.mkdtemp(prefix="drv", dir=scratch())
    fin, fout = os.path.join(d, "in.json"), os.path.join(d, "out.json")
    with open(fin, "w") as fh:
        json.dump(payload, fh)
    p = subprocess.Popen([PY, os.path.join(VERIF, "harness", script), fin, fout, *extra], cwd=d,
                         env=child_env(dict({"VERIF_SCRATCH": d}, **(env or {}))),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        hang = False
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            out, _ = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            out = b""
        hang = True
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)     # whatever the driver left running
    except (ProcessLookupError, PermissionError):
        pass
    res = None
    if os.path.exists(fout):
        try:
            with open(fout) as fh:
                res = json.load(fh)
        except Exception:
            res = None
    shutil.rmtree(d, ignore_errors=True)
    return res, hang, p.returncode, out.decode(errors="replace")


def run_drivers(script, payloads, timeout=300, parallel=8, env=None):
    """Several driver processes in parallel; returns list of (res, hang, rc, out)."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(parallel) as ex:
        return list(ex.map(lambda pl: run_driver(script, pl, timeout=timeout, env=env), payloads))


def split(items, n):
    n = max(1, min(n, len(items)))
    return [items[i::n] for i in range(n)]


# -------------------------------------------------------------------- verdict
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [f for f in json.load(fh)["findings"] if f.get("status") == "open"]


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes, self.known = [], [], [], {}
        self.extra = {}
        self.assumptions = []

    def add_model(self, r, name=None):
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        if name:
            self.extra.setdefault("models", {})[name] = {"distinct": r.distinct, "generated": r.generated}

    def add_traces(self, n, states=0):
        self.traces += n
        self.states += states
        self.transitions += states

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def finish(self):
        ev = os.environ.get("VERIF_EVDIR") or os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        for k, v in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, v))
        rc = 0
        if self.violations:
            rp = os.path.join(ev, "replay_%s.json" % self.pid)
            with open(rp, "w") as fh:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], fh, indent=1, default=str)
            for w, _ in self.violations[:10]:
                print("  " + str(w)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            rc = 1
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["-"])
        cov.update(self.extra)
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", self.traces)
        doc = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                   assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                   violations=len(self.violations))
        with open(os.path.join(ev, self.pid + ".json"), "w") as fh:
            json.dump(doc, fh, indent=1, default=str)
        if rc == 0:
            print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
                  (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0))
        return rc


def replay(chk, script, progs, module, cfg="", relevant=None, timeout=240, nproc=8, known=None, batch=400, defs=None, key="progs", extra=None, envs=None):
    """Run the programs in the real code, validate what was recorded, report.
    relevant(bad, episode) -> set of clauses that concern this property."""
    parts = split(list(enumerate(progs)), nproc)
    payloads = [dict({key: [p for _, p in part]}, **(extra or {})) for part in parts]
    out = run_drivers(script, payloads, timeout=timeout, parallel=nproc, env=(envs or [None])[0])
    for env in (envs or [None])[1:]:     # the same programs in another environment, one episode together
        for a, b in zip(out, run_drivers(script, payloads, timeout=timeout, parallel=nproc, env=env)):
            if a[0] and b[0]:
                for ea, eb in zip(a[0]["episodes"], b[0]["episodes"]):
                    ea.append(dict(eb[0], op="fresh"))
                    ea.extend(eb[1:])
    episodes, origin = [], []
    for part, (res, hang, rc, text) in zip(parts, out):
        got = (res or {}).get("episodes", [])
        for (k, p), ep in zip(part, got):
            episodes.append(ep)
            origin.append(p)
        if len(got) < len(part):
            p = part[len(got)][1]
            if hang:
                chk.violation("the code under test does not return (program %s)" % json.dumps(p)[:300],
                              {"program": p, "clause": "Returns", "output": text[-1500:]})
            elif rc is not None and rc < 0:
                chk.violation("the code under test ended its process with signal %d" % -rc,
                              {"program": p, "clause": "ProcessSurvives", "output": text[-1500:]})
            elif "ImportError" in text or "Error" in text:
                # the driver catches every exception of the calls it makes: what escapes is
                # an import failure of the code under test or an error of the harness
                if re.search(r'File "%s/mlmc' % re.escape(REPO), text):
                    chk.violation("the code under test fails outside any call: " + text[-300:],
                                  {"program": p, "clause": "Usable", "output": text[-1500:]})
                else:
                    raise MachineryError("driver %s: %s" % (script, text[-3000:]))
            else:
                raise MachineryError("driver %s gave no result: rc=%s %s" % (script, rc, text[-3000:]))
    if not episodes:
        return [], []
    bads, states = validate(module, episodes, cfg_extra=cfg, batch=batch, defs=defs)
    chk.add_traces(len(episodes), states)
    for p, ep in list(zip(origin, episodes))[:2]:
        chk.sample({"program": p if len(json.dumps(p)) < 1500 else json.dumps(p)[:1500]})
    for b in bads:
        cl = set(b.clauses)
        if relevant is not None and "OutsideSpecDomain" not in cl:
            cl = cl & set(relevant(b, episodes[b.ep]))
        if not cl:
            continue
        kf = known(b, origin[b.ep], episodes[b.ep]) if known else None
        if kf:
            chk.known[kf] = kf
            continue
        ev = b.event
        chk.violation("clauses %s broken at event %d (%s)%s" % (",".join(sorted(cl)), b.idx, ev.get("op"),
                      " raised " + str(ev.get("raised")) if ev.get("raised") else ""),
                      {"program": origin[b.ep], "event": ev, "clauses": sorted(cl), "tlc": b.tlcerr, "index": b.idx,
                       "script": script, "module": module})
    return episodes, bads
