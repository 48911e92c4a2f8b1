"""P17: every resource obtained from libclang (string, token array, diagnostic, evaluation result, index, translation
unit) is released exactly once on every path, by the function that owns it, and nothing borrowed from it is used
afterwards. Typestate dataflow over the MIR of every function that touches libclang."""
LEVEL = "other"
ASSUMPTIONS = ["libclang's documented ownership rules: which functions return owned values and which function releases each",
               "clang_tokenize leaves a null array when it reports zero tokens; a null result of the other functions owns nothing",
               "unwinding paths are not considered (a panic inside a callback aborts the process)"]

ACQ = {  # function -> (kind, where: "ret" or index of the out parameter)
    "clang_tokenize": ("tokens", 2), "clang_getDiagnostic": ("diagnostic", "ret"), "clang_Cursor_Evaluate": ("eval", "ret"),
    "clang_createIndex": ("index", "ret"), "clang_parseTranslationUnit2": ("unit", 7), "clang_parseTranslationUnit": ("unit", "ret"),
    "clang_parseTranslationUnit2FullArgv": ("unit", 7)}
REL = {"clang_disposeString": ("string", 0), "clang_disposeTokens": ("tokens", 1), "clang_disposeDiagnostic": ("diagnostic", 0),
       "clang_EvalResult_dispose": ("eval", 0), "clang_disposeIndex": ("index", 0), "clang_disposeTranslationUnit": ("unit", 0)}
BORROWED = ("clang_Cursor_getTranslationUnit",)
OWNERS = {"index"}          # kinds that may live on in a value whose Drop releases them


def acq(name, destty):
    s = name.split("::")[-1]
    if s in ACQ:
        return ACQ[s]
    if s.startswith("clang_") and destty == "clang_sys::CXString":
        return ("string", "ret")
    return None


def carries(ty):
    """May a value of this type still point into the resource it was computed from?"""
    return any(x in ty for x in ("&", "*", "CStr", "Cow", "Chars", "Split", "Iter", "CXCursor", "CXToken", "CXDiagnostic", "CXString", "CXType", "CXFile", "CXSource", "closure", "{closure"))


class Fn:
    """One run over a body. Abstract state: per local a set of tags
    ("r", site) the resource itself, ("d", site) borrowed from it, ("&", local) address of a local, ("b",) not owned here,
    and per site a subset of {"live", "gone", "null", "lost"}."""

    def __init__(self, c, P, body, summ, params=()):
        self.c, self.P, self.b, self.summ = c, P, body, summ
        self.kind, self.line, self.count, self.where = {}, {}, {}, {}
        self.found = {}
        self.params = params
        self.ret = set()
        self.exit_states = {}

    def tags(self, st, place):
        t = set()
        base = st[0].get(place[0], frozenset())
        for x in base:
            if x[0] == "&" and len(place) > 1 and "*" in place[1:]:
                t |= st[0].get(x[1], frozenset())
            elif x[0] == "r" and "*" in place[1:]:
                t.add(("d", x[1]))
            else:
                t.add(x)
        return t

    def optags(self, st, o):
        p = o.get("c") or o.get("m")
        return self.tags(st, p) if p else set()

    def used(self, st, tags, line, what):
        for x in tags:
            if x[0] in ("r", "d") and "gone" in st[1].get(x[1], ()):
                k = self.kind[x[1]]
                self.report(f"use-after-release:{k}:{what}", f"line {line}: {what} uses the {k} obtained at line {self.line[x[1]]} after it was released (line {line})")

    def report(self, key, msg):
        self.found[key] = msg

    def set(self, st, place, tags):
        tags = frozenset(tags)
        if len(place) == 1:
            st[0][place[0]] = tags
        elif place[1] == "*":
            hit = False
            for x in st[0].get(place[0], ()):
                if x[0] == "&":
                    st[0][x[1]] = st[0].get(x[1], frozenset()) | tags
                    hit = True
            if not hit and tags:
                self.escape(st, tags)
        else:
            st[0][place[0]] = st[0].get(place[0], frozenset()) | tags

    def escape(self, st, tags):
        for x in tags:
            if x[0] == "r":
                st[1][x[1]] = frozenset(["lost"])

    def stmt(self, st, s):
        if s[0] == "dead":
            return
        if s[0] != "=":
            return
        place, r, line = s[1], s[2], s[3] if len(s) > 3 else 0
        k = r[0]
        ty = self.b["locals"][place[0]] if len(place) == 1 else ""
        t = set()
        if k in ("use", "repeat"):
            t = self.optags(st, r[1])
            self.used(st, {x for x in t if x[0] == "d"} if True else t, line, "a value borrowed from it")
        elif k == "ref" or k == "rawptr":
            p = r[2]
            if len(p) == 1:
                t = {("&", p[0])}
            elif "*" in p[1:]:
                t = set()
                for x in st[0].get(p[0], ()):
                    t.add(x if x[0] == "&" else ("d", x[1]) if x[0] == "r" else x)
            else:
                t = self.tags(st, p)
        elif k in ("cast", "un"):
            t = self.optags(st, r[2])
        elif k == "bin":
            a, b = self.optags(st, r[2]), self.optags(st, r[3])
            t = set()
        elif k == "agg":
            for o in r[2]:
                t |= self.optags(st, o)
        elif k == "discr":
            t = set()
        if not (ty == "" or carries(str(ty)) or any(x[0] == "r" for x in t)):
            t = {x for x in t if x[0] != "d"}
        self.set(st, place, t)

    def guard(self, ty):
        """Does a local type release libclang resources when dropped?"""
        for n, b in self.P.bodies.items():
            if n.endswith("::drop") and ty and ty.split("<")[0] in str(b["locals"][1]):
                if any(t[1].get("k", {}).get("fn", "").split("::")[-1] in REL for _, t in self.P.calls(b)):
                    return True
        return False

    def call(self, st, i, t):
        o, args, dest, target, line = t[1], t[2], t[3], t[4], t[5] if len(t) > 5 else 0
        k = o.get("k") or {}
        full = k.get("res") or k.get("fn") or "?"
        name = full.split("::")[-1]
        at = [self.optags(st, a) for a in args]
        dty = str(self.b["locals"][dest[0]]) if len(dest) == 1 else ""
        if name in REL and "clang" in full:
            kind, ix = REL[name]
            handled = False
            for x in at[ix] if ix < len(at) else ():
                if x[0] == "b":
                    self.report(f"release-of-borrowed:{kind}", f"line {line}: {name} releases a {kind} this function does not own")
                if x[0] != "r":
                    continue
                handled = True
                s = st[1].get(x[1], frozenset())
                if self.kind[x[1]] != kind and self.kind[x[1]] != "param":
                    self.report(f"wrong-release:{self.kind[x[1]]}", f"line {line}: {name} called on the {self.kind[x[1]]} of line {self.line[x[1]]}")
                if "gone" in s:
                    self.report(f"double-release:{kind}", f"line {line}: {name} may release the {kind} obtained at line {self.line[x[1]]} a second time")
                st[1][x[1]] = frozenset(["gone"]) if len([y for y in at[ix] if y[0] == "r"]) == 1 else s | {"gone"}
            for j, tg in enumerate(at):
                if j != ix:
                    self.used(st, tg, line, name)
            self.set(st, dest, ())
            return
        for j, tg in enumerate(at):
            self.used(st, tg, line, name)
        a = acq(full, dty)
        site = (self.b["name"], i)
        if a and "clang" in full:
            kind, where = a
            if "live" in st[1].get(site, ()):
                self.report(f"leak:{kind}", f"line {line}: {name} is reached again while the {kind} obtained here before is still unreleased")
            self.kind[site], self.line[site] = kind, line
            st[1][site] = frozenset(["live"])
            if where == "ret":
                self.set(st, dest, {("r", site)})
            else:
                for x in at[where] if where < len(at) else ():
                    if x[0] == "&":
                        st[0][x[1]] = frozenset([("r", site)])
                if kind == "tokens" and where + 1 < len(at):
                    self.count[site] = frozenset(x[1] for x in at[where + 1] if x[0] == "&")
                self.set(st, dest, {("code", site)} if kind == "unit" else ())
            return
        if name in BORROWED:
            self.set(st, dest, {("b",)})
            return
        body = self.P.bodies.get(full)
        if body is not None:
            for j, tg in enumerate(at):
                rs = [x for x in tg if x[0] == "r"]
                if not rs:
                    continue
                e = self.summ(full, j)
                for x in rs:
                    s = st[1].get(x[1], frozenset())
                    if e == "gone":
                        if "gone" in s:
                            self.report(f"double-release:{self.kind[x[1]]}", f"line {line}: {name} may release the {self.kind[x[1]]} obtained at line {self.line[x[1]]} a second time")
                        st[1][x[1]] = frozenset(["gone"])
                    elif e == "lost":
                        st[1][x[1]] = frozenset(["lost"])
            if dty == "clang_sys::CXString":
                self.kind[site], self.line[site] = "string", line
                st[1][site] = frozenset(["live"])
                self.set(st, dest, {("r", site)})
                return
        t2 = set()
        if full.endswith("::is_null"):
            for tg in at:
                t2 |= {("isnull", x[1]) for x in tg if x[0] == "r"}
        elif carries(dty):
            for tg in at:
                for x in tg:
                    if x[0] == "r":
                        t2.add(("d", x[1]))
                    elif x[0] == "d":
                        t2.add(x)
                    elif x[0] == "&":
                        t2 |= {("d", y[1]) if y[0] == "r" else y for y in st[0].get(x[1], ()) if y[0] in ("r", "d")}
        # a mutable out parameter may receive something borrowed
        self.set(st, dest, t2)

    def run(self):
        b, P = self.b, self.P
        init = ({}, {})
        for j, kind in self.params:
            site = ("param", j)
            self.kind[site], self.line[site] = kind, "the parameter"
            init[0][j + 1] = frozenset([("r", site)])
            init[1][site] = frozenset(["live"])
        instate = {0: init}
        work = [0]
        n = 0
        while work:
            n += 1
            if n > 20000:
                raise RuntimeError("no fixpoint in " + b["name"])
            i = work.pop(0)
            bb = b["bb"][i]
            st = (dict(instate[i][0]), dict(instate[i][1]))
            for s in bb["s"]:
                self.stmt(st, s)
            t = bb["t"]
            outs = []
            if t[0] == "call":
                self.call(st, i, t)
                if t[4] is not None:
                    outs = [(t[4], st)]
            elif t[0] == "switch":
                outs = self.branch(st, bb, t)
            elif t[0] == "return":
                self.at_return(st)
            else:
                outs = [(s, st) for s in P.succ(b, i)]
            for s, x in outs:
                old = instate.get(s)
                new = self.join(old, x)
                if new != old:
                    instate[s] = new
                    if s not in work:
                        work.append(s)
        return self

    def join(self, a, b):
        if a is None:
            return (dict(b[0]), dict(b[1]))
        l = dict(a[0])
        for k, x in b[0].items():
            l[k] = l.get(k, frozenset()) | x
        r = dict(a[1])
        for k, x in b[1].items():
            r[k] = r.get(k, frozenset()) | x
        return (l, r)

    def branch(self, st, bb, t):
        """Refines the state by what the branch says about null results and token counts."""
        o = t[1]
        p = o.get("c") or o.get("m")
        cond = self.condition(st, bb, p[0]) if p and len(p) == 1 else None
        outs = []
        for val, blk in t[2]:
            outs.append((blk, self.refine(st, cond, val)))
        vals = [x[0] for x in t[2]]
        rest = 1 if vals == [0] else 0 if vals == [1] else "other"
        outs.append((t[3], self.refine(st, cond, rest)))
        return outs

    def condition(self, st, bb, local):
        for x in st[0].get(local, ()):
            if x[0] == "isnull":
                return ("isnull", x[1])
        for s in reversed(bb["s"]):
            if s[0] == "=" and s[1] == [local]:
                r = s[2]
                if r[0] == "un" and r[1] == "Not":
                    p = r[2].get("c") or r[2].get("m")
                    c = self.condition(st, bb, p[0]) if p and len(p) == 1 else None
                    return ("not", c) if c else None
                if r[0] == "bin":
                    a = self.src(bb, r[2])
                    k = (r[3].get("k") or {}).get("v") or {}
                    if "i" in k:
                        return ("cmp", r[1], a, k["i"])
                if r[0] == "use":
                    a = self.src(bb, r[1])
                    if a is not None and a != local:
                        c = self.condition(st, bb, a)
                        return c or ("val", a)
        return ("val", local)

    def src(self, bb, o):
        p = o.get("c") or o.get("m")
        if not p or len(p) != 1:
            return None
        l = p[0]
        for s in reversed(bb["s"]):
            if s[0] == "=" and s[1] == [l] and s[2][0] == "use":
                return self.src(bb, s[2][1]) or l
        return l

    def refine(self, st, cond, val):
        if cond is None:
            return st
        if cond[0] == "not":
            return self.refine(st, cond[1], 1 - val if val in (0, 1) else val)
        dead = None         # sites that own nothing on this edge
        if cond[0] == "isnull":
            dead = [cond[1]] if val == 1 else []
        elif cond[0] in ("cmp", "val"):
            local = cond[2] if cond[0] == "cmp" else cond[1]
            sites = [s for s, ls in self.count.items() if local in ls]
            codes = [x[1] for x in st[0].get(local, ()) if x[0] == "code"]
            if cond[0] == "val":
                zero = val == 0
                nonzero = not zero
            else:
                f = {"Gt": lambda n, k: n > k, "Eq": lambda n, k: n == k, "Ne": lambda n, k: n != k, "Lt": lambda n, k: n < k,
                     "Ge": lambda n, k: n >= k, "Le": lambda n, k: n <= k}.get(cond[1])
                if f is None:
                    return st
                truth = val == 1
                zero = f(0, cond[3]) == truth
                nonzero = any(f(n, cond[3]) == truth for n in range(1, 300))
            if zero and not nonzero:
                dead = sites
            elif nonzero and not zero:
                dead = codes
        if not dead:
            return st
        r = dict(st[1])
        for s in dead:
            if s in r:
                r[s] = frozenset(["null"]) if "live" in r[s] or "null" in r[s] else r[s]
        return (st[0], r)

    def at_return(self, st):
        ret = {x[1] for x in st[0].get(0, ()) if x[0] == "r"}
        rty = str(self.b["locals"][0])
        for s, x in st[1].items():
            self.exit_states[s] = self.exit_states.get(s, frozenset()) | x
            if s[0] == "param":
                continue
            if "live" in x and s not in ret:
                self.report(f"leak:{self.kind[s]}", f"the {self.kind[s]} obtained at line {self.line[s]} is not released on every path to the end of the function")
            if "live" in x and s in ret and self.kind[s] in OWNERS and not self.owner_type(rty):
                self.report(f"leak:{self.kind[s]}", f"the {self.kind[s]} obtained at line {self.line[s]} leaves the function in a {rty}, which has no Drop releasing it")
        for x in st[0].get(0, ()):
            if x[0] == "d" and "gone" in st[1].get(x[1], ()):
                self.report(f"use-after-release:{self.kind[x[1]]}:returned", f"the returned value points into the {self.kind[x[1]]} obtained at line {self.line[x[1]]}, which is released before returning")

    def owner_type(self, rty):
        for n, b in self.P.bodies.items():
            if n.split("::")[-1] == "drop" and b["args"] == 1:
                own = str(b["locals"][1]).replace("&mut ", "").replace("&", "").strip()
                if own and own in rty and any((t[1].get("k") or {}).get("fn", "").split("::")[-1] in REL for _, t in self.P.calls(b)):
                    return True
        return False


def run(c):
    P = c.P
    memo = {}

    def summ(full, j):
        k = (full, j)
        if k in memo:
            return memo[k]
        memo[k] = "live"
        b = P.bodies[full]
        f = Fn(c, P, b, summ, params=[(j, "param")]).run()
        s = f.exit_states.get(("param", j), frozenset(["live"]))
        memo[k] = "gone" if s == frozenset(["gone"]) else "live" if s == frozenset(["live"]) else "lost"
        return memo[k]
    nf = ns = nr = 0
    for n, b in sorted(P.bodies.items()):
        if "promoted[" in n:
            continue
        names = [(t[1].get("k") or {}).get("fn", "") for _, t in P.calls(b)]
        if not any("clang_sys::" in x for x in names):
            continue
        nf += 1
        f = Fn(c, P, b, summ).run()
        c.fns.add(n)
        ns += len(f.kind)
        nr += sum(x.split("::")[-1] in REL for x in names)
        for s, kind in f.kind.items():
            c.ob(f"released-once:{short(n)}:{kind}", True, "", rule="acquisitions followed to their release")
        for key, msg in f.found.items():
            c.fail(f"{key}:{short(n)}", msg, c.where(b))
    c.floor("functions using libclang", nf, 40)
    c.floor("acquisition sites", ns, 40)
    c.floor("release calls", nr, 30)
    # the index kept in the parser is released by its destructor
    holders = [n for n, a in P.adts.items() if n.endswith("::CParser")]
    drops = [n for n in P.bodies if n.endswith("::drop") and "CParser" in str(P.bodies[n]["locals"][1])]
    c.ob("index:released by the parser's destructor", bool(drops) and any((t[1].get("k") or {}).get("fn", "").endswith("clang_disposeIndex") for d in drops for m in P.reach([d]) if m in P.bodies for _, t in P.calls(P.bodies[m])) or not holders,
         "the parser keeps a libclang index but its destructor does not release it", holders[0] if holders else "")


def short(n):
    return n.split("::", 1)[-1]
