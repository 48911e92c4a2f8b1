"""Bookkeeping of one check: obligations, violations, coverage."""
import json
import os
import signal
import time

from absint import *
import hir
import rx


END = time.time() + 720         # no single check runs longer; what is not decided by then is recorded as undecided


class Ctx:
    def __init__(self, P, pid, tier):
        self.P, self.pid, self.tier = P, pid, tier
        self.violations = {}
        self.nob = 0
        self.counts = {}
        self.fns = set()
        self.steps = 0
        self.samples = {}
        self.deep = tier == "thorough"
        self.end = END
        self.undecided = {}
        self.unm = set()
        self.allunm = set()
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "unmodelled.json")
        self.okunm = set(json.load(open(f))) if os.path.exists(f) else set()

    def ob(self, key, okk, msg="", where="", rule="", val=None):
        """One obligation. A failure is a violation only when the abstract result it rests on is definite: when the
        result is unknown (top), or the code now goes through a library function the analysis has no model of, the
        obligation is recorded as undecided."""
        self.nob += 1
        r = rule or key.split(":")[0]
        self.counts["obligations " + r] = self.counts.get("obligations " + r, 0) + 1
        if okk and len(self.samples.setdefault(r, [])) < 4:
            self.samples[r].append(key)
        if not okk:
            new = self.unm - self.okunm
            if val is not None and unknown(val):
                self.undecided[key] = "unknown value: " + str(msg)[:200]
            elif new:
                self.undecided[key] = "unmodelled: " + ", ".join(sorted(new))[:200]
            else:
                self.fail(key, msg, where)
        return okk

    def fail(self, key, msg="", where=""):
        if key not in self.violations:
            self.violations[key] = {"key": key, "msg": str(msg)[:1500], "where": where}

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, what, n, least):
        """The rule must have found at least this many instances, otherwise it is not looking at the code it was written for."""
        self.counts[what] = n
        if n < least:
            self.fail("floor:" + what, f"only {n} instances found, at least {least} expected: the construct this rule decides was not found")

    def fn(self, suffix):
        return self.P.fn(suffix)

    def interp(self, opaque=(), on_call=None, unroll=3, maxdepth=14, root=None, more=False):
        op = tuple(opaque)

        def pred(n):
            if root is not None and n == root:
                return False
            return any(n == x or n.endswith("::" + x) for x in op)
        if not more:        # more: a further step of the same obligation
            self.unm = set()
        I = Interp(self.P, opaque=pred, on_call=on_call, maxdepth=maxdepth)
        I.unroll = unroll
        I.deadline = min(time.time() + 150, self.end)
        return I

    def done(self, I):
        self.steps += I.steps
        self.unm |= set(I.unmodelled)
        self.allunm |= set(I.unmodelled)
        self.fns |= {b[0] for b in I.blocks}

    def run(self, I, body, **over):
        """Runs body with the given pinned arguments; joined value of all outcomes."""
        if isinstance(body, str):
            body = self.P.fn(body)
        facts = over.pop("facts_", None)
        res = I.run(body, hir.args_of(body, **over), facts=facts)
        self.done(I)
        V = frozenset()
        for _, x in res:
            V |= x
        return V

    def where(self, body):
        if isinstance(body, str):
            body = self.P.bodies.get(body) or self.P.fn(body, required=False)
        return f"{body['span']} {body['name']}" if body else "?"

    def coverage(self):
        return {"obligations": self.nob, "undecided": len(self.undecided), "undecided_keys": dict(list(self.undecided.items())[:50]), "functions_analysed": len(self.fns), "abstract_steps": self.steps, "counts": self.counts,
                "functions": sorted(self.fns)[:400], "samples": self.samples}


_unk = {}


def unknown(x):
    """Does a value rest on something the analysis lost track of?"""
    if isinstance(x, Term):
        r = _unk.get(x)
        if r is None:
            r = _unk[x] = x.k in ("top", "mutby", "mut") or any(unknown(y) for y in x.a)
        return r
    if isinstance(x, (tuple, frozenset, list)):
        return any(unknown(y) for y in x)
    return False


LIMIT = (120, 60, 30, 10)       # seconds for one item, less once items of this worker ran out of time


def late(*_):
    raise TimeoutError("analysis time exceeded")


def par(c, items, f, jobs=8):
    """Runs f(c, item) for every item in forked workers; obligations, violations and coverage are merged in item order."""
    import multiprocessing as mp
    import pickle
    import tempfile
    items = list(items)
    jobs = max(1, min(jobs, os.cpu_count() or 1, len(items)))
    procs = []
    for j in range(jobs):
        fd, path = tempfile.mkstemp(prefix="decyverif")
        os.close(fd)
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                k = Ctx(c.P, c.pid, c.tier)
                k.end = c.end
                signal.signal(signal.SIGALRM, late)
                slow = 0
                for i in range(j, len(items), jobs):
                    try:
                        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(LIMIT[min(slow, 3)], k.end + 20 - time.time())))
                        try:
                            f(k, items[i])
                        finally:
                            signal.setitimer(signal.ITIMER_REAL, 0)
                    except Exception as e:      # the analysis cannot follow the code: recorded, not an alarm by itself
                        import traceback
                        k.undecided[f"analysis:{items[i][0] if isinstance(items[i], tuple) else i}"] = "analysis failed: " + repr(e)[:200] + " " + traceback.format_exc()[-300:]
                        k.nfail = getattr(k, "nfail", 0) + 1
                        slow += isinstance(e, (TimeoutError, Budget))
                d = {x: getattr(k, x) for x in ("violations", "nob", "counts", "fns", "steps", "samples", "undecided", "allunm")}
                d["nfail"] = getattr(k, "nfail", 0)
                pickle.dump(d, open(path, "wb"))
                rc = 0
            finally:
                os._exit(rc)
        procs.append((pid, path))
    for pid, path in procs:
        _, status = os.waitpid(pid, 0)
        if status != 0 or os.path.getsize(path) == 0:
            os.unlink(path)
            raise RuntimeError("an analysis worker ended early")
        d = pickle.load(open(path, "rb"))
        os.unlink(path)
        for k2, x in d["violations"].items():
            c.violations.setdefault(k2, x)
        c.nob += d["nob"]
        for k2, n in d["counts"].items():
            c.counts[k2] = c.counts.get(k2, 0) + n
        c.fns |= d["fns"]
        c.steps += d["steps"]
        for k2, x in d["samples"].items():
            c.samples[k2] = (c.samples.get(k2, []) + x)[:4]
        c.undecided.update(d["undecided"])
        c.allunm |= d["allunm"]
        c.nfail = getattr(c, "nfail", 0) + d["nfail"]
