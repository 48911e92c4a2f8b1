"""P11: a failure is reported. For every call on the way of a command that can fail, the path analysis assumes that it failed and follows
every path of the caller: each ends in returning an error, leaving the process with a failure, or handing the error on."""
import re

LEVEL = "other"
ASSUMPTIONS = ["library functions without a body here report their failures in their result", "an error value moved into another value or call is reported by whoever receives it"]

PASS = re.compile(r"::(branch|with_context|context|map_err|map|and_then|as_ref|as_mut|from_residual|from|into|inspect_err|clone|wrap_err|flatten|transpose|or_else)$")
LOOK = re.compile(r"::(is_err|is_ok|is_some|is_none)$")
SWALLOW = re.compile(r"::(ok|err|unwrap_or|unwrap_or_default|unwrap_or_else|is_ok_and|is_err_and|map_or|map_or_else|iter|into_iter|unwrap_or_log)$|drop$|drop_in_place$")
PRINT = re.compile(r"^core::fmt|fmt::rt::Argument|^std::io::(stdio::)?_e?print|alloc::fmt::format|::to_string$|::fmt$|Display|Debug|::as_str$|::deref$")
PANIC = re.compile(r"::(unwrap|expect)$")
EXIT = re.compile(r"process::(exit|abort)$")


def name(op):
    k = op.get("k") or {}
    return k.get("res") or k.get("fn") or "", k.get("fn") or "", k


def local(a):
    p = a.get("c") or a.get("m")
    return (p[0], tuple(str(x) for x in p[1:])) if p else None


def crate(f):
    return f.lstrip("<").split("::")[0]


class Follow:
    """All paths of one function after one failed call."""

    def __init__(self, P, b):
        self.P, self.b = P, b
        self.res = str(b["locals"][0]).startswith("core::result::Result<")
        self.command = crate(b["name"]) == "decy"

    def run(self, i0):
        """Block at which an execution returns success although the call in block i0 failed, or None."""
        if i0 < 0:          # parameter -i0 arrives as a failure
            start = (0, frozenset({(-i0, "R")}), False)
        else:
            t = self.b["bb"][i0]["t"]
            opt = str(self.b["locals"][t[3][0]]).startswith("core::option::Option<")
            start = (t[4], frozenset({(t[3][0], "O" if opt else "R")}), t[3][0] == 0)
        todo, seen = [start], {start}
        while todo:
            i, car, err = todo.pop()
            for st in self.step(i, dict(car), err):
                if st == "lost":
                    return i
                if st not in seen:
                    seen.add(st)
                    if len(seen) > 20000:
                        return None
                    todo.append(st)
        return None

    def step(self, i, car, err):
        """Successor states: (block, what each local holds, does _0 hold an error). R: the failed result, P: its error value, D: its
        discriminant, T/F: a truth value known because it failed."""
        bb = self.b["bb"][i]
        if bb.get("cl"):
            return []
        for s in bb["s"]:
            if s[0] != "=":
                continue
            d, r = s[1], s[2]
            val = None
            if r[0] in ("use", "cast"):
                l = local(r[1] if r[0] == "use" else r[2])
                if l and car.get(l[0]) == "O":
                    val = "P" if any("Err" in x for x in l[1]) else "R" if "@Some" in l[1] else "O" if not l[1] else None
                elif l and l[0] in car:
                    val = "P" if car[l[0]] == "R" and any("Err" in x or "Break" in x for x in l[1]) else car[l[0]]
                    if car[l[0]] == "R" and any("@Ok" in x or "@Continue" in x for x in l[1]):
                        val = None
            elif r[0] in ("ref", "rawptr"):
                if car.get(r[2][0]) == "O":
                    val = "P" if any("Err" in str(x) for x in r[2][1:]) else "R" if "@Some" in r[2][1:] else "O"
                elif r[2][0] in car:
                    val = "P" if car[r[2][0]] == "R" and any("Err" in str(x) or "Break" in str(x) for x in r[2][1:]) else car[r[2][0]]
            elif r[0] == "discr":
                if car.get(r[1][0]) == "N" and len(r[1]) == 1:
                    val = "D0"
                elif car.get(r[1][0]) == "O":
                    val = "D"           # something, and that an error
                elif r[1][0] in car and car[r[1][0]] == "R":
                    val = "D" if "Option" not in str(r[2]) else "D0"
            elif r[0] == "agg":
                ls = [local(o) for o in r[2]]
                hit = [car[l[0]] for l in ls if l and l[0] in car]
                a = r[1] if isinstance(r[1], dict) else {}
                if a.get("var") == "Err" and "Result" in a.get("adt", ""):
                    val = "E"
                elif hit and any(h in ("R", "P", "E") for h in hit):
                    val = "P" if a.get("adt") or not a else "P"
            elif r[0] == "un" and r[1] == "Not":
                l = local(r[2])
                if l and l[0] in car and car[l[0]] in ("T", "F"):
                    val = "F" if car[l[0]] == "T" else "T"
            if len(d) == 1:
                if d[0] == 0:
                    err = val in ("E", "R", "P")
                if val is not None:
                    car[d[0]] = val
                else:
                    car.pop(d[0], None)
            elif val in ("R", "P", "E"):
                car.setdefault(d[0], "P")
        t = bb["t"]
        out = lambda j, c=car, e=err: (j, frozenset(c.items()), e)
        if t[0] == "return":
            return [] if err or not (self.res or self.command) else ["lost"]
        if t[0] == "switch":
            l = local(t[1])
            k = car.get(l[0]) if l and not l[1] else None
            if k in ("D", "D0", "T", "F"):
                want = {"D": 1, "D0": 0, "T": 1, "F": 0}[k]
                for v, j in t[2]:
                    if v == want:
                        return [out(j)]
                return [out(t[3])]
        if t[0] == "call":
            n, f, kk = name(t[1])
            held = [(p, car[l[0]]) for p, l in enumerate(map(local, t[2])) if l and l[0] in car]
            if (EXIT.search(n) or EXIT.search(f)) and t[2] and "k" in t[2][0] and re.search(r"'i': '?0'?\b|'int': '?0'?\b|: '?0'?}$", str(t[2][0]["k"].get("v"))):
                return ["lost"]         # leaves the process with success
            if EXIT.search(n) or EXIT.search(f) or t[4] is None:
                return []
            val = None
            if held:
                h = held[0][1]
                fa = n + " " + f
                if h in ("R", "E", "P") and (PANIC.search(n) or PANIC.search(f)):
                    return []
                if h == "R" and (LOOK.search(n) or LOOK.search(f)):
                    val = "T" if re.search(r"is_err|is_none", f) else "F"
                elif h in ("R", "P", "E") and (PASS.search(n) or PASS.search(f)):
                    val = h if h != "P" or not re.search(r"from_residual$", fa) else "E"
                    if re.search(r"from_residual", fa):
                        val = "E"
                elif h in ("R", "P", "E") and re.search(r"::ok$", f):
                    val = "N"
                elif h == "N" and re.search(r"::(ok_or|ok_or_else)$", f):
                    val = "R"
                elif h == "N" and re.search(r"::(unwrap|expect)$", f):
                    return []
                elif h == "N" and re.search(r"::is_(none|some)$", f):
                    val = "T" if "is_none" in f else "F"
                elif h in ("R", "P", "E") and not (SWALLOW.search(n) or SWALLOW.search(f) or PRINT.search(n) or PRINT.search(f)):
                    if any("m" in t[2][p] for p, _ in held):
                        if str(self.b["locals"][t[3][0]]).startswith(("anyhow::Error", "core::result::Result<")) if t[3] else False:
                            val = "P"
                        else:
                            return []       # handed on
            elif t[3] and str(self.b["locals"][t[3][0]]).startswith("anyhow::Error"):
                val = "P"       # a fresh error, reported below
            if t[3] and len(t[3]) == 1:
                if t[3][0] == 0:
                    err = val in ("E", "R", "P")
                if val in ("R", "P", "E", "T", "F", "N"):
                    car[t[3][0]] = val
                else:
                    car.pop(t[3][0], None)
            return [out(t[4], car, err)]
        return [out(j) for j in self.P.succ(self.b, i)]


FMT = re.compile(r"core::fmt::Error|core::convert::Infallible")
OUT = re.compile(r"^decy::repl::run$|::test|coverage_tests|_tests::|^<.* as core::fmt|::fmt$")


def can_fail(P, n, seen=None):
    """Can the function return an error at all?"""
    b = P.bodies.get(n)
    if b is None:
        return True
    seen = seen if seen is not None else set()
    if n in seen:
        return False
    seen.add(n)
    for bb in b["bb"]:
        if bb.get("cl"):
            continue
        for s in bb["s"]:
            if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("var") == "Err":
                return True
        t = bb["t"]
        if t[0] == "call" and t[3] and str(b["locals"][t[3][0]]).startswith("core::result::Result<"):
            m, f, _ = name(t[1])
            if f.endswith("from_residual") or not FMT.search(str(b["locals"][t[3][0]])) and t[3][0] == 0 and can_fail(P, m or f, seen):
                return True
    return False


def sites(P):
    """Calls that can fail, in the functions commands run, and failures handed to closures of commands: (function, body, block or -parameter, line, callee)."""
    for f in sorted(P.reach(["decy::run", "decy::main"])):
        b = P.bodies.get(f)
        if b is None or OUT.search(f) or crate(f) not in ("decy", "decy_core", "decy_parser"):
            continue
        if FMT.search(str(b["locals"][0])) or not str(b["locals"][0]).startswith("core::result::Result<") and crate(f) != "decy":
            continue
        if "{closure" in f and crate(f) == "decy":
            for p in range(2, b["args"] + 1):
                if str(b["locals"][p]).startswith("core::result::Result<"):
                    yield f, b, -p, b.get("line", ""), f"parameter {p - 1}"
        for i, t in P.calls(b):
            if not t[3] or len(t[3]) != 1 or b["bb"][i].get("cl") or t[4] is None:
                continue
            ty = str(b["locals"][t[3][0]])
            n, fn, _ = name(t[1])
            if fn.endswith("Iterator::next") and re.match(r"core::option::Option<core::result::Result<", ty) and not FMT.search(ty):
                yield f, b, i, t[5], n or fn
                continue
            if not ty.startswith("core::result::Result<") or FMT.search(ty) or PASS.search(n) or PASS.search(fn) or re.search(r"^core::(result|option|ops)|FromResidual|Try::|::from_output$|^std::path::", fn):
                continue
            if can_fail(P, n or fn):
                yield f, b, i, t[5], n or fn


def run(c):
    k = {}
    nfun = set()
    for f, b, i, line, n in sites(c.P):
        nfun.add(f)
        lost = Follow(c.P, b).run(i)
        key = f"{f}:{n}"
        k[key] = k.get(key, 0) + 1
        c.ob(key + (f"#{k[key]}" if k[key] > 1 else ""), lost is None, f"when {n} (line {line}) fails, {f} can still return success" + (f" (line {b['bb'][lost]['t'][-1] if lost is not None else ''})" if lost is not None and b['bb'][lost]['t'][0] == 'call' else ""), c.where(b))
    c.count("functions", len(nfun))
    c.count("fallible calls", sum(k.values()))
    c.floor("fallible calls", sum(k.values()), 60)
