"""P12: a dry run changes nothing. Conditional constant propagation over MIR: with the dry-run flag set, no call that writes to the file
system (or can reach one) is reachable; commands that only inspect reach none at all."""
import re

LEVEL = "other"
ASSUMPTIONS = ["library functions other than those of std::fs, std::process and tempfile do not write files the user can see"]
WRITE = re.compile(r"std::fs::(write|copy|rename|create_dir|create_dir_all|remove_file|remove_dir|remove_dir_all|hard_link|set_permissions|soft_link)$|std::fs::File::(create|create_new|set_len|options)$|std::fs::OpenOptions::(open|write|create|append|truncate)$|std::fs::DirBuilder::create$|std::os::unix::fs::symlink$")
FLAG = re.compile(r"dry_?run", re.I)


def name(op):
    k = op.get("k") or {}
    return k.get("res") or k.get("fn") or "", k.get("fn") or "", k


def local(a):
    p = a.get("c") or a.get("m")
    return (p[0], tuple(map(str, p[1:]))) if p else None


def flag(x):
    """Does the value hold the flag?"""
    return x is True or isinstance(x, tuple) and any(flag(y[1] if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) and y[0].startswith(".") else y) for y in (x[2] if x[0] in ("adt", "clos") else x[1:]))


def same(x, y):
    return type(x) is type(y) and x == y


class Reach:
    """Values: bool or int; ("&", value); ("adt", variant index, fields); ("clos", function, captures); None = unknown."""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def writes(self, f, flags):
        """Call path to a write from f with these parameters known (position -> value), or None."""
        return self.call(f, flags)[0]

    def call(self, f, flags):
        key = (f, flags)
        if key not in self.memo:
            self.memo[key] = (None, None)
            b = self.P.bodies.get(f)
            if b is not None:
                self.memo[key] = self.body(b, dict(flags))
        return self.memo[key]

    def body(self, b, known):
        """Constant propagation with joins; known: parameter position (from 1) -> value. Returns (path to a write, value returned)."""
        ins = {0: dict(known)}
        todo = [0]
        calls, rets = {}, {}
        while todo:
            i = todo.pop()
            st = dict(ins[i])
            bb = b["bb"][i]
            if bb.get("cl"):
                continue
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                d, r = s[1], s[2]
                if r[0] == "ref" and r[1] != "shr" or r[0] == "rawptr":
                    st.pop(r[2][0], None)       # may be changed through the reference
                x = self.value(st, r) if len(d) == 1 else None
                if x is None:
                    st.pop(d[0], None)
                else:
                    st[d[0]] = x
            t = bb["t"]
            succ = [j for j in self.P.succ(b, i)]
            if t[0] == "switch":
                x = self.op(st, t[1])
                if isinstance(x, (bool, int)):
                    succ = [next((j for v, j in t[2] if v == int(x)), t[3])]
            elif t[0] == "return":
                rets[i] = st.get(0)
            elif t[0] == "call":
                vals = [self.op(st, a) for a in t[2]]
                calls[i] = (t, vals)
                n, f, _ = name(t[1])
                x = None
                if f.endswith("Not::not") and isinstance(vals[0], bool):
                    x = not vals[0]
                elif re.search(r"::(clone|deref|borrow|as_ref|into|from)$", f) and vals and n not in self.P.bodies:
                    x = vals[0]
                    x = x[1] if f.endswith("::clone") and isinstance(x, tuple) and x[0] == "&" else x
                elif re.search(r"PartialEq::(eq|ne)$", f) and len(vals) == 2:
                    p, q = (y[1] if isinstance(y, tuple) and y[0] == "&" else y for y in vals)
                    if p is not None and q is not None and (isinstance(p, (bool, int)) or isinstance(p, tuple) and p[0] == "adt" and not p[2]):
                        x = (p == q) == f.endswith("eq")
                elif f.endswith("bool}::then_some") and isinstance(vals[0], bool):
                    x = ("adt", 1, ((".0", vals[1]),)) if vals[0] else ("adt", 0, ())
                elif re.search(r"Option::(is_some|is_none)$", f):
                    y = vals[0][1] if isinstance(vals[0], tuple) and vals[0][0] == "&" else vals[0]
                    if isinstance(y, tuple) and y[0] == "adt":
                        x = (y[1] == 1) == f.endswith("is_some")
                else:
                    for g in [y for y in (n, f) if y in self.P.bodies][:1]:
                        x = self.call(g, self.args(f, vals))[1]
                if t[3]:
                    st.pop(t[3][0], None)
                    if x is not None and len(t[3]) == 1:
                        st[t[3][0]] = x
            for j in succ:
                if j not in ins:
                    ins[j] = dict(st)
                    todo.append(j)
                else:
                    keep = {k: x for k, x in ins[j].items() if same(st.get(k), x)}
                    if keep.keys() != ins[j].keys():
                        ins[j] = keep
                        todo.append(j)
        ret = list(rets.values())
        ret = ret[0] if ret and all(same(x, ret[0]) for x in ret) else None
        for i, (t, vals) in sorted(calls.items()):
            n, f, k = name(t[1])
            if WRITE.search(n) or WRITE.search(f):
                return [(b["name"], f, t[5])], ret
            for g in [x for x in (n, f) if x in self.P.bodies][:1]:
                r = self.writes(g, self.args(f, vals))
                if r:
                    return [(b["name"], g, t[5])] + r, ret
            held = {x[1]: x for x in (y[1] if isinstance(y, tuple) and y[0] == "&" else y for y in vals) if isinstance(x, tuple) and x[0] == "clos"}
            for g in sorted(set(k.get("clos", ())) | set(held)):
                if g in self.P.bodies and g not in (n, f):
                    r = self.writes(g, (((1, held[g]),) + tuple(y for y in self.args(f, vals) if y[0] > 1 and f.startswith("core::ops::function::"))) if g in held else ())
                    if r:
                        return [(b["name"], g, t[5])] + r, ret
        return None, ret

    @staticmethod
    def flags(vals):
        return tuple((p + 1, x) for p, x in enumerate(vals) if x is not None)

    @classmethod
    def args(cls, f, vals):
        """Known parameters of the callee; a closure called through the Fn traits gets its parameters as a tuple."""
        if re.search(r"ops::function::Fn\w*::call\w*$", f) and len(vals) == 2:
            t = vals[1]
            return cls.flags(vals[:1]) + (tuple((int(n[1:]) + 2, x) for n, x in t[2]) if isinstance(t, tuple) and t[0] == "adt" else ())
        return cls.flags(vals)

    def op(self, st, a):
        if "k" in a:
            v = a["k"].get("v")
            if a["k"].get("t") == "bool" and v is not None:
                s = str(v)
                return "true" in s.lower() or re.search(r": '?1'?\b", s) is not None
            return None
        p = a.get("c") or a.get("m")
        return self.place(st, p) if p else None

    def place(self, st, p):
        if len(p) > 1 and FLAG.search(str(p[-1])):      # the option as the command line gives it
            return True
        x = st.get(p[0])
        for e in map(str, p[1:]):
            if e == "*":
                if isinstance(x, tuple) and x[0] == "&":
                    x = x[1]
                elif not (isinstance(x, tuple) and x[0] == "clos"):
                    return None
            elif e.startswith("@"):
                continue
            elif isinstance(x, tuple) and x[0] in ("adt", "clos"):
                x = dict(x[2]).get(e)
            else:
                return None
        return x

    def value(self, st, r):
        if r[0] == "use":
            return self.op(st, r[1])
        if r[0] == "un" and r[1] == "Not":
            x = self.op(st, r[2])
            return not x if isinstance(x, bool) else None
        if r[0] == "ref" and r[1] == "shr":
            if len(r[2]) > 1 and r[2][-1] == "*":       # a reference taken again
                return self.place(st, r[2][:-1])
            x = self.place(st, r[2])
            return ("&", x) if x is not None else None
        if r[0] == "discr":
            x = self.place(st, r[1])
            return x[1] if isinstance(x, tuple) and x[0] == "adt" and isinstance(x[1], int) else None
        if r[0] == "agg":
            a = r[1] if isinstance(r[1], dict) else {}
            vals = [self.op(st, o) for o in r[2]]
            if a.get("closure"):
                return ("clos", a["closure"], tuple((f".{i}", x) for i, x in enumerate(vals) if x is not None))
            if "adt" in a:
                return ("adt", a.get("vi", 0), tuple(("." + str(n), x) for n, x in zip(a.get("fl", ()), vals) if x is not None))
            if not a or "tup" in str(r[1]):
                return ("adt", 0, tuple((f".{i}", x) for i, x in enumerate(vals) if x is not None))
        if r[0] == "bin" and r[1] in ("BitAnd", "BitOr", "BitXor", "Eq", "Ne"):
            x, y = self.op(st, r[2]), self.op(st, r[3])
            if r[1] == "BitAnd" and (x is False or y is False):
                return False
            if r[1] == "BitOr" and (x is True or y is True):
                return True
            if isinstance(x, bool) and isinstance(y, bool):
                return {"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y, "Eq": x == y, "Ne": x != y}[r[1]]
        return None

    def handed(self, b):
        """Calls that the command dispatcher hands the flag to: (line, function, flags, path to a write)."""
        got = {}
        keep = self.call
        self.call = lambda g, fl: got.setdefault((g, fl), 1) and (None, None)
        try:
            self.body(b, {})
        finally:
            self.call = keep
        for g, fl in sorted(got, key=repr):
            if any(flag(x) for _, x in fl):
                yield g, fl, self.writes(g, fl)


READONLY = ("decy::check_project", "decy::audit_file", "decy::show_cache_stats")


def run(c):
    P = c.P
    R = Reach(P)
    b = P.fn("decy::run")
    n = 0
    todo, seen = [b], set()
    while todo:
        x = todo.pop()
        if x["name"] in seen:
            continue
        seen.add(x["name"])
        for g, fl, w in R.handed(x):
            n += 1
            c.ob(f"dry run:{g}", w is None, f"with the dry-run option set, {g} still reaches {' -> '.join(f'{f} (line {l})' for _, f, l in w or ())}", c.where(P.bodies[g]))
        for _, t in P.calls(x):
            m, f, k = name(t[1])
            g = m if m in P.bodies else f
            if g in P.bodies and g.startswith("decy::") and "::handle_" in g:
                todo.append(P.bodies[g])
    c.floor("commands with a dry run", n, 1)
    for f in READONLY:
        x = P.bodies.get(f)
        if x is None:
            continue
        w = R.writes(f, ())
        n += 1
        c.ob(f"inspects only:{f}", w is None, f"{f} reaches {' -> '.join(f'{g} (line {l})' for _, g, l in w or ())}", c.where(x))
    # controls: the translating commands do write, and the analysis sees it
    w = R.writes("decy::transpile_project", ())
    c.ob("sees writes:decy::transpile_project", w is not None, "no write found in the command that writes the project: the analysis lost its subject", c.where(b))
    c.count("functions analysed", len(R.memo))
