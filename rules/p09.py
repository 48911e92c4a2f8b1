"""P09: translating is a function of the input. Flow analysis over MIR: the order in which a hash table is walked, the
clock, the process, the environment and the order of a directory listing do not reach any text the translator produces.

States of a value: 0 does not depend on such an order; 1 / 2 one element of something walked in hash order (walked by a
caller / walked here): harmless by itself; 3 an order or a choice that can differ between runs."""
import re
import ctx

LEVEL = "other"
ASSUMPTIONS = ["library functions without a body here return a function of their arguments", "a sort by a key or comparison that looks at a name puts the elements in one order",
               "a branch taken or not because of one element, which then only sets constants, is taken to be independent of the order",
               "a search that compares a string with a given one finds at most one element"]

HASH = r"std::collections::hash::(map::HashMap|set::HashSet)"
UNORD = re.compile(r"collections::(hash::(map::HashMap|set::HashSet)|btree::(map::BTreeMap|set::BTreeSet))|hash_map::|btree_map::")
WALK = re.compile(r"(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|union|intersection|difference|symmetric_difference|into_iter|extract_if)$")
CLOCK = re.compile(r"std::time::(SystemTime|Instant)::(now|elapsed)|std::process::id$|std::thread::(current|Thread::id)|std::env::(var|vars|var_os|temp_dir)$|RandomState::new|random::random|std::fs::read_dir$|thread_rng|rand::")
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key|sorted|sort_by_file_name)$")
LOSSY = re.compile(r"::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|make_ascii_lowercase|trim\w*|split\w*|rsplit\w*|strip_prefix|strip_suffix|replace\w*|chars|bytes|char_indices|get|get_unchecked|index|len|first|last|file_name|file_stem|extension|find|rfind|starts_with|ends_with)$")
INSENS = re.compile(r"Iterator::(count|any|all|sum|product|min|max|size_hint)$|::(len|is_empty|contains|contains_key|capacity)$")
SELECT = re.compile(r"Iterator::(next|nth|last|find|find_map|position|min_by|max_by|min_by_key|max_by_key|fold|reduce|try_fold)$|::(first|last|pop|get)$")


def fnname(op):
    k = op.get("k") or {}
    return k.get("res") or k.get("fn") or "", k.get("fn") or "", k


class Flow:
    def __init__(self, c):
        self.c, self.P = c, c.P
        self.memo, self.busy = {}, set()
        self.walks = {}

    def ty(self, b, l):
        return str(b["locals"][l])

    def singleton(self, b, root):
        """Is the table built here and does every insertion put the same constant value?"""
        keys, made = set(), False
        alias = self.aliases(b)
        for _ in range(4):          # the local it was moved from
            src = [self.local(s[2][1]) for bb in b["bb"] for s in bb["s"] if s[0] == "=" and s[1] == [root] and s[2][0] == "use"]
            if len(src) != 1 or src[0] is None:
                break
            root = src[0]
        for i, t in self.P.calls(b):
            n, f, _ = fnname(t[1])
            if t[3] and t[3][0] == root and re.search(HASH + r".*::(new|default|with_capacity)$", n + " " + f):
                made = True
            for pos, a in enumerate(t[2]):
                l = self.local(a)
                if l is not None and alias.get(l, l) == root and pos == 0 and self.ty(b, l).startswith("&") and "mut" in self.ty(b, l)[:12]:
                    if not f.endswith("::insert") and not n.endswith("::insert"):
                        return False
                    keys.add(self.constant(b, t[2][1], 0))
        return made and len(keys) == 1 and None not in keys

    def constant(self, b, a, d):
        if "k" in a:
            return repr(a["k"])
        l = self.local(a)
        if l is None or d > 4:
            return None
        defs = []
        for bb in b["bb"]:
            if bb.get("cl"):
                continue
            for s in bb["s"]:
                if s[0] == "=" and s[1][0] == l:
                    defs.append(s[2])
            t = bb["t"]
            if t[0] == "call" and t[3] and t[3][0] == l:
                defs.append(t)
        if len(defs) != 1:
            return None
        r = defs[0]
        if r[0] == "call":
            ks = [self.constant(b, x, d + 1) for x in r[2]]
            return None if None in ks else (fnname(r[1])[0], tuple(ks))
        if r[0] == "use":
            return self.constant(b, r[1], d + 1)
        return None

    def local(self, a):
        p = a.get("c") or a.get("m")
        return p[0] if p else None

    def aliases(self, b):
        """local -> the local whose storage a reference held in it leads to."""
        if "_p09" in b:
            return b["_p09"]
        al = {}

        def root(l):
            seen = set()
            while l in al and l not in seen:
                seen.add(l)
                l = al[l]
            return l
        for _ in range(3):
            for bb in b["bb"]:
                if bb.get("cl"):
                    continue
                for s in bb["s"]:
                    if s[0] != "=" or len(s[1]) != 1:
                        continue
                    r, d = s[2], s[1][0]
                    if r[0] in ("ref", "rawptr") and r[2][0] != d:
                        al.setdefault(d, r[2][0])
                    elif r[0] in ("use", "cast") and (self.ty(b, d).startswith(("&", "*"))):
                        l = self.local(r[1] if r[0] == "use" else r[2])
                        if l is not None and l != d:
                            al.setdefault(d, l)
                t = bb["t"]
                if t[0] == "call" and t[3] and len(t[3]) == 1 and t[2]:
                    d, l = t[3][0], self.local(t[2][0])
                    if l is not None and l != d and ("&mut" in self.ty(b, d) or re.search(r"&'\w+ mut|Entry<", self.ty(b, d))) and self.ty(b, l).startswith("&"):
                        al.setdefault(d, l)
        b["_p09"] = {l: root(l) for l in al}
        return b["_p09"]

    def run(self, b, params, depth=0):
        """(state of the result, states of the parameters afterwards) when called with parameters in these states."""
        key = (b["name"], params)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or depth > 60:
            return 0, params
        self.busy.add(key)
        al = self.aliases(b)
        R = lambda l: al.get(l, l)
        init = {i + 1: s for i, s in enumerate(params) if s}
        ins = {0: init}
        work = [0]
        ret, outp, lookup = 0, dict(init), False
        n = 0
        acc = self.accumulators(b)
        while work:
            n += 1
            if n > 4000:
                break
            i = work.pop()
            st = dict(ins[i])
            bb = b["bb"][i]
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                x = self.rstate(st, R, s[2], al)
                d = s[1][0]
                if d in acc and x < 3:
                    x = 0
                if len(s[1]) == 1 and d not in al:
                    st[d] = x
                elif x > st.get(R(d), 0):
                    st[R(d)] = x
            t = bb["t"]
            if t[0] == "call":
                self.call(b, st, R, t, depth)
            if t[0] == "call" and re.search(r"PartialEq(<.*>)?>?::(eq|ne)$", fnname(t[1])[1]):
                a = sorted(self.opstate(st, R, x) for x in t[2])
                if a[0] == 0 and a[-1] in (1, 2) and any(re.search(r"String|\bstr\b", self.ty(b, self.local(x))) for x in t[2] if self.local(x) is not None):
                    lookup = True
            if t[0] == "return":
                r = st.get(R(0), 0) if R(0) != 0 else st.get(0, 0)
                ret = max(ret, r)
                for p in range(1, len(params) + 1):
                    outp[p] = max(outp.get(p, 0), st.get(p, 0))
            for j in self.P.succ(b, i):
                if b["bb"][j].get("cl"):
                    continue
                if j not in ins:
                    ins[j] = dict(st)
                    work.append(j)
                else:
                    ch = False
                    for k, x in st.items():
                        if x > ins[j].get(k, 0):
                            ins[j][k] = x
                            ch = True
                    if ch:
                        work.append(j)
        self.busy.discard(key)
        if ret == 2 and lookup:     # searched for by name
            ret = 0
        res = (ret, tuple(outp.get(p, 0) for p in range(1, len(params) + 1)))
        self.memo[key] = res
        return res

    def accumulators(self, b):
        """Temporaries holding x + y (or another order-independent combination) that are stored back to x."""
        tmp, out = {}, set()
        for bb in b["bb"]:
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                if s[2][0] == "bin" and re.match(r"(Add|Mul|BitOr|BitAnd|BitXor)", s[2][1]):
                    for o in (s[2][2], s[2][3]):
                        l = self.local(o)
                        if l is not None:
                            tmp.setdefault(s[1][0], set()).add(l)
                            if l == s[1][0]:
                                out.add(l)
                elif s[2][0] == "use":
                    l = self.local(s[2][1])
                    if l in tmp and s[1][0] in tmp[l]:
                        out |= {l, s[1][0]}
        return out

    def opstate(self, st, R, o):
        l = self.local(o)
        return max(st.get(l, 0), st.get(R(l), 0)) if l is not None else 0

    def rstate(self, st, R, r, al):
        k = r[0]
        if k in ("use", "repeat"):
            return self.opstate(st, R, r[1])
        if k in ("ref", "rawptr"):
            return max(st.get(r[2][0], 0), st.get(R(r[2][0]), 0))
        if k in ("cast", "un"):
            return self.opstate(st, R, r[2])
        if k == "bin":
            return max(self.opstate(st, R, r[2]), self.opstate(st, R, r[3]))
        if k == "discr":
            return 0
        if k == "agg":
            return max([self.opstate(st, R, o) for o in r[2]] or [0])
        return 0

    def source(self, b, t, n, f, R):
        a0 = self.local(t[2][0]) if t[2] else None
        t0 = self.ty(b, a0) if a0 is not None else ""
        if WALK.search(n) or WALK.search(f):
            if re.search(HASH, n) or re.match(r"&?('\w+ )?(mut )?" + HASH, t0) and (re.search(HASH, f) or "IntoIterator" in f):
                root = R(a0) if a0 is not None else None
                if root is not None and self.singleton(b, root):
                    return 0
                self.walks.setdefault((b["name"], n.split("::")[-1]), t[5])
                return 3
        if CLOCK.search(n) or CLOCK.search(f):
            self.walks.setdefault((b["name"], n), t[5])
            return 3
        return 0

    def total(self, k):
        """Does the key or the comparison handed to a sort tell any two elements apart (does it look at a name)?"""
        cl = [self.P.bodies[x] for x in k.get("clos", ()) if x in self.P.bodies]
        if not cl:
            return True
        text = re.compile(r"\bString\b|\bstr\b|\bPathBuf\b|\bPath\b|\bOsStr")
        for b in cl:
            if text.search(self.ty(b, 0)) and not self.lossy(b, [0]):
                return True
            todo, seen = [b], set()
            while todo:
                x = todo.pop()
                if x["name"] in seen:
                    continue
                seen.add(x["name"])
                for _, t in self.P.calls(x):
                    n, f, kk = fnname(t[1])
                    if re.search(r"::(cmp|partial_cmp)$", n) or re.search(r"::(cmp|partial_cmp)$", f):
                        ls = [self.local(a) for a in t[2] if self.local(a) is not None]
                        if any(text.search(self.ty(x, l)) for l in ls) and not self.lossy(x, ls):
                            return True
                    todo += [self.P.bodies[y] for y in list(kk.get("clos", ())) + [n] if y in self.P.bodies]
        return False

    def lossy(self, b, locs):
        """Is the text in one of these locals made by a function that can give two different names one value?"""
        return not all(self.clean(b, l, set()) for l in locs)

    def clean(self, b, l, seen):
        if l in seen:
            return True
        seen = seen | {l}
        ok = True
        for bb in b["bb"]:
            if bb.get("cl"):
                continue
            for s in bb["s"]:
                if s[0] == "=" and s[1] == [l]:
                    r = s[2]
                    if r[0] == "agg":       # one component that tells the elements apart is enough
                        ls = [x for x in map(self.local, r[2]) if x is not None]
                        text = [x for x in ls if re.search(r"\bString\b|\bstr\b|\bPath(Buf)?\b|\bOsStr", self.ty(b, x))]
                        ok = ok and any(self.clean(b, x, seen) for x in text)
                        continue
                    ops = [r[1]] if r[0] in ("use", "repeat") else [r[2]] if r[0] in ("cast", "un") else []
                    ls = [x for x in map(self.local, ops) if x is not None] + ([r[2][0]] if r[0] in ("ref", "rawptr") else [])
                    ok = ok and all(self.clean(b, x, seen) for x in ls)
            t = bb["t"]
            if t[0] == "call" and t[3] and t[3][0] == l:
                n, f, _ = fnname(t[1])
                if LOSSY.search(n) or LOSSY.search(f):
                    return False
                ok = ok and all(self.clean(b, x, seen) for x in map(self.local, t[2]) if x is not None)
        return ok

    def call(self, b, st, R, t, depth):
        n, f, k = fnname(t[1])
        d = t[3][0] if t[3] else None
        args = [self.opstate(st, R, a) for a in t[2]]
        locs = [self.local(a) for a in t[2]]
        tys = [self.ty(b, l) if l is not None else "" for l in locs]
        dty = self.ty(b, d) if d is not None else ""

        def put(x):
            if d is not None:
                if len(t[3]) == 1 and d not in self.aliases(b):
                    st[d] = x
                elif x > st.get(R(d), 0):
                    st[R(d)] = x

        def taint(l, x, why=None):
            r = R(l)
            if x > st.get(r, 0):
                st[r] = x
        if SORT.search(n) or SORT.search(f):
            if locs and locs[0] is not None and self.total(k):
                st[R(locs[0])] = 0
                st[locs[0]] = 0
            return put(0)
        src = self.source(b, t, n, f, R)
        if src:
            return put(3)
        # closures handed over: what they do to what they captured, given elements of a walk
        clos = [c for c in k.get("clos", ()) if c in self.P.bodies]
        m = max(args or [0])
        body = self.P.bodies.get(n) or self.P.bodies.get(f)
        if body is not None and "promoted[" not in n:
            if m == 0 and not self.may(body["name"]):
                return put(0)
            r, after = self.run(body, tuple(min(x, 3) if x != 2 else 1 for x in args[:body["args"]]) if body["args"] == len(args) else tuple([m] * body["args"]), depth + 1)
            if body["args"] == len(args):
                for l, ty, x, y in zip(locs, tys, args, after):
                    if l is not None and y > x and y == 3:
                        taint(l, 3)
            if r == 1:
                r = max([x for x in args if x in (1, 2)] or [1])
            elif r == 2:
                r = 3       # an element chosen by the callee
            return put(r)
        cr = 0
        for c in clos:
            cb = self.P.bodies[c]
            st1 = 1 if m else 0
            r, after = self.run(cb, tuple([0] + [st1] * (cb["args"] - 1)), depth + 1)
            cr = max(cr, r)
            if after and after[0] == 3:     # something captured was filled in hash order
                for l, ty in zip(locs, tys):
                    if l is not None and "closure" in ty.lower():
                        for x in self.captured(b, l):
                            if not UNORD.search(self.ty(b, R(x))):
                                taint(x, 3)
                        taint(l, 3)
        if INSENS.search(n) or INSENS.search(f):
            return put(0 if m == 3 or m == 0 else m if not f.startswith("core::iter") else 0)
        if UNORD.search(dty) and not dty.startswith("&") and "Iter" not in dty.split("<")[0] and re.search(r"::(collect|from_iter|from|into)$", n + " " + f):
            return put(0)
        if SELECT.search(f) and args and args[0] == 3:
            return put(2)
        # a receiver that is changed by the call takes in the other arguments
        if locs and locs[0] is not None and re.match(r"&('\w+ )?mut ", tys[0]):
            rest = max(args[1:] or [0])
            root = self.ty(b, R(locs[0]))
            if UNORD.search(tys[0]) or (UNORD.search(root) and "Vec<" not in tys[0].split("<")[0]):
                if rest == 3 and not re.search(r"extend$", n + " " + f):
                    taint(locs[0], 3)
            elif rest:
                taint(locs[0], 3)
        put(max(m, cr if m else (3 if cr == 3 else 0)))

    def captured(self, b, l):
        for bb in b["bb"]:
            for s in bb["s"]:
                if s[0] == "=" and s[1][0] == l and s[2][0] == "agg":
                    for o in s[2][2]:
                        x = self.local(o)
                        if x is not None:
                            yield x

    def may(self, name):
        """Can this function, or one it calls, meet a source at all?"""
        if not hasattr(self, "_may"):
            src = set()
            for b in self.P.bodies.values():
                if "promoted[" in b["name"]:
                    continue
                for i, t in self.P.calls(b):
                    n, f, _ = fnname(t[1])
                    if self.source(b, t, n, f, lambda l: self.aliases(b).get(l, l)):
                        src.add(b["name"])
                        break
            self.walks.clear()
            cg = self.P.callgraph()
            rev = {}
            for a, xs in cg.items():
                for x in xs:
                    rev.setdefault(x, set()).add(a)
            st, seen = list(src), set(src)
            while st:
                for y in rev.get(st.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            self._may = seen
        return name in self._may


TEXT = re.compile(r"^(core::result::Result<|core::option::Option<)*\(?(alloc::string::String|decy_core::Transpiled\w*|decy_core::TranspilationResult|decy_parser::parser::Ast\b)")


def entries(P):
    """Functions whose result is text of the translation, or the program read."""
    for n, b in sorted(P.bodies.items()):
        if "promoted[" in n or "{closure" in n or not b["locals"]:
            continue
        if re.match(r"decy_(core|codegen|parser|stdlib)::", n) and TEXT.match(str(b["locals"][0])):
            yield n


def run(c):
    P = c.P
    F = Flow(c)
    F.may("")
    es = list(entries(P))
    reach = P.reach(es)
    for n in es:
        b = P.bodies[n]
        r, _ = F.run(b, tuple([0] * b["args"]))
        c.ob("text:" + n, r < 2, "what it returns depends on something that differs from run to run; walks and clocks below it: " + "; ".join(f"{a} ({k})" for a, k in sorted(F.walks) if a.split("::{")[0] in P.reach([n]))[:600], c.where(b))
    c.count("entry points", len(es))
    c.count("functions analysed", len({k[0] for k in F.memo}))
    c.count("sources reached", len(F.walks))
    c.count("functions reachable from the entry points", len([x for x in reach if x in P.bodies]))
    for (a, k), l in sorted(F.walks.items()):
        c.count("source:" + a + ":" + k, 1)
    c.floor("entry points", len(es), 60)
    c.floor("sources reached", len(F.walks), 2)
