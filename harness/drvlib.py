"""Helpers used inside driver processes (they import the code under test)."""
import sys, os, json, hashlib, traceback, tempfile, shutil, warnings
warnings.simplefilter("ignore")
import numpy as np
warnings.simplefilter("ignore")


def load_input():
    with open(sys.argv[1]) as fh:
        return json.load(fh)


def save_output(obj):
    tmp = sys.argv[2] + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(obj, fh)
    os.replace(tmp, sys.argv[2])


def vtok(v):
    """Token of a result vector, bit exact (NaNs identified)."""
    try:
        a = np.ascontiguousarray(np.array(v, dtype=np.float64).ravel())
    except Exception as e:
        return "unreadable:" + type(e).__name__
    a = a.copy()
    a[np.isnan(a)] = np.nan
    return "%d:%s" % (a.size, hashlib.md5(a.tobytes()).hexdigest()[:12])


def exc_name():
    t, e, tb = sys.exc_info()
    return "%s: %s" % (t.__name__, str(e)[:160])


def as_int(x, default=-99):
    try:
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")) or f != int(f) or abs(f) > 10 ** 9:
            return -98
        return int(f)
    except Exception:
        return default


def silence():
    """The code under test prints a lot."""
    devnull = open(os.devnull, "w")
    sys.stdout = devnull


def run_all(progs, fn, every=3.0):
    """Run the programs one by one; what is finished is on disk if the process is killed."""
    import time
    eps, last = [], time.time()
    for p in progs:
        eps.append(fn(p))
        if time.time() - last > every:
            save_output({"episodes": eps})
            last = time.time()
    save_output({"episodes": eps})


class Hang(Exception):
    pass


class limit:
    """the enclosed call must return within the given number of seconds"""
    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        import signal

        def fire(*a):
            raise Hang("the call does not return (%d s)" % self.sec)
        self.old = signal.signal(signal.SIGALRM, fire)
        signal.alarm(self.sec)

    def __exit__(self, *a):
        import signal
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False
