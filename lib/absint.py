"""Abstract interpretation of MIR bodies over a domain of provenance terms.

A value is a finite set of terms; a term says where a value comes from: a constant, an input (access path),
an aggregate of values, a string or sequence built from pieces (literal text, holes filled by other values,
repetitions), the result of a call the analysis does not look into, or `top`.  Transfer functions follow the
MIR; states are joined where control flow joins and widened at loop heads, so every run terminates.  Branches
whose condition is decided by the abstract value are pruned (conditional constant propagation).  Calls to
functions of the workspace are analysed in the caller's context; standard-library calls have models below;
everything else is an opaque call term.  Nothing is executed and no solver is involved."""
import heapq
import time
import sys

sys.setrecursionlimit(20000)
CAP = 160         # terms per value before it is widened to top
MAXDEPTH = 60     # nesting of terms before top


class Term:
    __slots__ = ("k", "a", "hasref", "depth", "txt")

    def __repr__(self):
        return show(self)


_T = {}


def _scan(x):
    if isinstance(x, Term):
        return x.hasref, x.depth
    if isinstance(x, (tuple, frozenset)):
        r, d = False, 0
        for y in x:
            a, b = _scan(y)
            r = r or a
            d = b if b > d else d
        return r, d
    return False, 0


def T(k, *a):
    key = (k, a)
    t = _T.get(key)
    if t is None:
        r, d = False, 0
        for x in a:
            rr, dd = _scan(x)
            r = r or rr
            d = max(d, dd)
        if d > MAXDEPTH:
            return TOP
        t = Term()
        t.k, t.a, t.hasref, t.depth, t.txt = k, a, r or k == "ref", d + 1, None
        _T[key] = t
    return t


TOP = None
TOP = T("top")
VTOP = frozenset([TOP])


def v(*ts):
    return frozenset(ts)


def S(*pieces):
    """String term; adjacent literals merged, singleton string holes spliced."""
    out = []

    def add(p):
        if isinstance(p, str):
            if not p:
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        elif p[0] == "h":
            V = p[1]
            if len(V) == 1:
                t = next(iter(V))
                if t.k == "str":
                    for q in t.a[0]:
                        add(q)
                    return
                lit = litstr(t)
                if lit is not None:
                    add(lit)
                    return
            out.append(p)
        elif p[0] == "star" and out and isinstance(out[-1], tuple) and out[-1][0] == "star" and (p[1] <= out[-1][1] or out[-1][1] <= p[1]):
            out[-1] = ("star", out[-1][1] | p[1])
        else:
            out.append(p)
    for p in pieces:
        add(p)
    if len(out) > 400:
        return TOP
    return T("str", tuple(out))


def litstr(t):
    if t.k == "i":
        return str(t.a[0])
    if t.k == "b":
        return "true" if t.a[0] else "false"
    if t.k == "ch":
        return t.a[0]
    return None


def SEQ(pieces):
    out = []
    for p in pieces:
        if p[0] == "star" and out and out[-1][0] == "star" and (p[1] <= out[-1][1]):
            continue
        out.append(p)
    if len(out) > 300:
        return T("seq", (("star", frozenset().union(*[p[1] for p in out])),))
    return T("seq", tuple(out))


def conc(a, b):
    """Concatenation of two string values."""
    if len(a) == 1 and len(b) == 1:
        x, y = next(iter(a)), next(iter(b))
        if x.k == "str" and y.k == "str":
            return v(S(*x.a[0], *y.a[0]))
    out = set()
    for x in a:
        base = x.a[0] if x.k == "str" else (("h", v(x)),)
        out.add(S(*base, ("h", b)))
    return norm(frozenset(out))


_sub = {}


def zero_forms(t):
    """The terms obtained from a string/sequence term by letting some repetitions happen zero times."""
    r = _sub.get(t)
    if r is None:
        ps = t.a[0]
        idx = [i for i, p in enumerate(ps) if isinstance(p, tuple) and p[0] in ("star", "jstar")]
        out = set()
        if 0 < len(idx) <= 5:
            for m in range(1, 1 << len(idx)):
                dropi = {idx[j] for j in range(len(idx)) if m >> j & 1}
                q = [p for i, p in enumerate(ps) if i not in dropi]
                out.add(S(*q) if t.k == "str" else SEQ(q))
        # a repetition whose item set includes the other's
        r = _sub[t] = frozenset(out)
    return r


def absorb(V):
    big = [t for t in V if t.k in ("str", "seq") and zero_forms(t)]
    if not big:
        return V
    dead = set()
    for t in big:
        dead |= zero_forms(t) & V
    return V - dead if dead else V


def norm(V):
    if len(V) > 1:
        if TOP in V:
            return VTOP
        V = absorb(V)
    if len(V) > CAP:
        return VTOP
    return V


def adt(name, var, **f):
    return T("adt", name, var, tuple(f.items()))


def some(V):
    return T("adt", "core::option::Option", "Some", (("0", V),))


NONE = T("adt", "core::option::Option", "None", ())
UNIT = T("tup", ())


def ok(V):
    return T("adt", "core::result::Result", "Ok", (("0", V),))


def err(V):
    return T("adt", "core::result::Result", "Err", (("0", V),))


def sym(name, ty="", var=None):
    """An input. `var` pins its enum variant."""
    return T("sym", name, ty, var)


def B(x):
    return T("b", bool(x))


def show(t, d=0):
    if isinstance(t, frozenset):
        if len(t) == 1:
            return show(next(iter(t)), d)
        if d > 8:
            return "{..}"
        return "{" + " | ".join(sorted(show(x, d + 1) for x in t)) + "}"
    if isinstance(t, str):
        return repr(t)
    if isinstance(t, tuple):
        if t and t[0] == "h":
            return "<" + show(t[1], d + 1) + ">"
        if t and t[0] == "star":
            return "(" + show(t[1], d + 1) + ")*"
        if t and t[0] == "jstar":
            return "(" + show(t[1], d + 1) + " sep " + show(t[2], d + 1) + ")*"
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, Term):
        return str(t)
    if d > 14:
        return ".."
    k, a = t.k, t.a
    if k in ("i", "b"):
        return str(a[0])
    if k == "ch":
        return repr(a[0])
    if k == "str":
        return "“" + "".join(p if isinstance(p, str) else show(p, d + 1) for p in a[0]) + "”"
    if k in ("seq", "it"):
        return k + "[" + ", ".join(show(p, d + 1) for p in a[0]) + "]"
    if k == "adt":
        return a[0].split("::")[-1] + "::" + a[1] + ("{" + ", ".join(n + ":" + show(x, d + 1) for n, x in a[2]) + "}" if a[2] else "")
    if k == "sym":
        return a[0] + (":" + a[2] if a[2] else "")
    if k == "fld":
        return show(a[0], d + 1) + a[1]
    if k == "elem":
        return "each(" + show(a[0], d + 1) + ")"
    if k == "call":
        return short(a[0]) + "(" + ", ".join(show(x, d + 1) for x in a[1]) + ")"
    if k == "ref":
        return f"&{a}"
    if k == "top":
        return "⊤"
    return k + "(" + ", ".join(show(x, d + 1) for x in a) + ")"


def short(n):
    return n.split("::")[-1]


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "owned", "facts", "key")

    def __init__(self):
        self.mem, self.owned, self.facts, self.key = {}, set(), {}, ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.facts = dict(self.facts)
        s.key = self.key
        return s

    def get(self, fid, l):
        return self.mem.get(fid, {}).get(l)

    def set(self, fid, l, V):
        m = self.mem.get(fid)
        if m is None:
            m = self.mem[fid] = {}
            self.owned.add(fid)
        elif fid not in self.owned:
            m = self.mem[fid] = dict(m)
            self.owned.add(fid)
        m[l] = V

    def drop(self, fid):
        self.mem.pop(fid, None)
        self.owned.discard(fid)


def join(a, b, widen=False, visits=0):
    """Joins b into a (same partition key); returns (state, changed)."""
    ch = False
    for fid, mb in b.mem.items():
        ma = a.mem.get(fid)
        if ma is mb:
            continue
        if ma is None:
            a.mem[fid] = mb
            ch = True
            continue
        upd = None
        for l, vb in mb.items():
            va = ma.get(l)
            if va is vb or va == vb:
                continue
            if va is None:
                nv = vb
            elif vb <= va:
                continue
            elif va == VTOP:
                continue
            elif widen:
                nv = widenv(va, vb, visits)
                if nv == va:
                    continue
            else:
                nv = merge_adts(norm(va | vb))
                if nv == va or nv <= va:
                    continue
            if upd is None:
                upd = {}
            upd[l] = nv
        if upd:
            if fid not in a.owned:
                ma = a.mem[fid] = dict(ma)
                a.owned.add(fid)
            ma.update(upd)
            ch = True
    for t in list(a.facts):
        fb = b.facts.get(t)
        if fb is None:
            del a.facts[t]
            ch = True
        elif fb != a.facts[t]:
            u = a.facts[t] | fb
            if u != a.facts[t]:
                a.facts[t] = u
                ch = True
    return a, ch


def merge_adts(V):
    """Keeps values small: when one constructor occurs many times, merge its fields."""
    if len(V) < 12:
        return V
    groups, out = {}, []
    for t in V:
        if t.k == "adt":
            groups.setdefault((t.a[0], t.a[1], tuple(n for n, _ in t.a[2])), []).append(t)
        else:
            out.append(t)
    for (n, var, fl), ts in groups.items():
        if len(ts) < 6:
            out.extend(ts)
        else:
            fs = []
            for i, f in enumerate(fl):
                fs.append((f, norm(frozenset().union(*[t.a[2][i][1] for t in ts]))))
            out.append(T("adt", n, var, tuple(fs)))
    return frozenset(out)


def common(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return n


def widenv(va, vb, visits):
    """Widening at loop heads: appended text becomes a repetition, growing constructors are merged."""
    out = set(va)
    for t in vb:
        if t in out:
            continue
        done = False
        if t.k in ("str", "seq", "it"):
            for o in list(out):
                if o.k != t.k:
                    continue
                w = wide_seq(o, t)
                if w is not None:
                    out.discard(o)
                    out.add(w)
                    done = True
                    break
        elif t.k in ("adt", "tup", "clos"):
            for o in list(out):
                if o.k == t.k and o.a[:2] == t.a[:2] if t.k == "adt" else o.k == t.k and t.k == "tup" and len(o.a[0]) == len(t.a[0]):
                    if t.k == "adt" and [n for n, _ in o.a[2]] == [n for n, _ in t.a[2]]:
                        nt = T("adt", o.a[0], o.a[1], tuple((n, widenv(x, y, visits) if not y <= x else x) for (n, x), (_, y) in zip(o.a[2], t.a[2])))
                    elif t.k == "tup":
                        nt = T("tup", tuple(widenv(x, y, visits) if not y <= x else x for x, y in zip(o.a[0], t.a[0])))
                    else:
                        continue
                    out.discard(o)
                    out.add(nt)
                    done = True
                    break
        if not done:
            out.add(t)
    r = norm(frozenset(out))
    if visits > 5 and not r <= va:
        # numbers and nested terms that keep growing
        if visits > 9 or all(t.k in ("i", "bin", "top", "call", "cast") for t in r):
            return VTOP
    return r


def wide_seq(o, t):
    """o and t are both str/seq/it; returns o·star(s) when t = o·s, or absorbs into an existing star."""
    pa, pb = o.a[0], t.a[0]
    mk = (lambda p: S(*p)) if t.k == "str" else (lambda p: SEQ(p)) if t.k == "seq" else (lambda p: T("it", tuple(p)))
    # literal tails may have been merged: compare on split text
    n = common(pa, pb)
    if t.k == "it":
        if len(pb) < len(pa) and pa[len(pa) - len(pb):] == pb:
            return None
        return None
    rest_a, rest_b = pa[n:], pb[n:]
    if t.k == "str" and rest_a and rest_b and isinstance(rest_a[0], str) and isinstance(rest_b[0], str) and rest_b[0].startswith(rest_a[0]):
        pre = pa[:n] + (rest_a[0],)
        rest_b = ((rest_b[0][len(rest_a[0]):],) if len(rest_b[0]) > len(rest_a[0]) else ()) + rest_b[1:]
        rest_a = rest_a[1:]
    else:
        pre = pa[:n]
    if not rest_a:
        if not rest_b:
            return o
        # o · rest_b: absorbed when it repeats something already repeated at the end of o, else a new repetition
        new = v(S(*rest_b)) if t.k == "str" else norm(frozenset().union(*[p[1] for p in rest_b]))
        j = len(pre)
        tail = []
        while j > 0 and isinstance(pre[j - 1], tuple) and pre[j - 1][0] == "star":
            j -= 1
            tail.append(pre[j][1])
            if new <= pre[j][1]:
                return mk(pre[:j] + (("star", norm(frozenset().union(*tail))),))
        if len(tail) >= 3:
            return mk(pre[:j] + (("star", norm(frozenset().union(new, *tail))),))
        return mk(pre + (("star", new),))
    # both differ after the prefix: a = pre·star(A)·…, b = pre·star(B)·…
    if len(rest_a) == 1 and isinstance(rest_a[0], tuple) and rest_a[0][0] == "star":
        if rest_b and isinstance(rest_b[0], tuple) and rest_b[0][0] == "star":
            tail = rest_b[1:]
            A = rest_a[0][1] | rest_b[0][1]
        else:
            tail = rest_b
            A = rest_a[0][1]
        if tail:
            new = v(S(*tail)) if t.k == "str" else frozenset().union(*[p[1] for p in tail])
            A = A | new
        return mk(pre + (("star", norm(A)),))
    return None


def mentions(t, x):
    if t is x:
        return True
    if isinstance(t, Term):
        return any(mentions(y, x) for y in t.a)
    if isinstance(t, (tuple, frozenset)):
        return any(mentions(y, x) for y in t)
    return False


class Event:
    __slots__ = ("fn", "stack", "line", "args", "key")


class Interp:
    """hooks: on_call(interp, state, callee, args, site) may return None (default handling) or a list of
    (state, value) outcomes. opaque: callee predicate -> do not look inside."""

    def __init__(self, prog, opaque=None, on_call=None, maxdepth=14, inline=None):
        self.p = prog
        self.opaque = opaque or (lambda n: False)
        self.on_call = on_call
        self.maxdepth = maxdepth
        self.inline = inline
        self.events = {}     # (callee, caller, block) -> call stack
        self.fids = {}
        self.proms = {}
        self.memo = {}
        self.stack = []
        self.steps = 0
        self.blocks = set()
        self.unmodelled = {}
        self.panics = set()
        self.budget = None
        self.deadline = None
        self.hash_ordered = False       # the rule does not depend on the order in which maps are walked or names sorted
        self.fresh = False      # identifiers of the described program are none of the words the translator singles out
        self.counted = False    # partition by the length of sequences pushed to
        self.recurse = 0     # how often a function may be re-entered before it is treated as unknown
        self.unroll = 0      # > 0: loops over fully known short sequences are analysed element by element

    # ---------- places
    def fid(self, *k):
        f = self.fids.get(k)
        if f is None:
            f = self.fids[k] = len(self.fids) + 1
        return f

    def proj(self, st, V, e):
        """Applies one projection to a value."""
        out = set()
        for t in V:
            if e == "*":
                if t.k == "ref":
                    out |= self.read_ref(st, t)
                elif t.k == "toks" and t.a[0]:
                    out.add(t.a[0][0])
                else:
                    out.add(t)
            elif e[0] == ".":
                f = e[1:]
                if t.k == "adt":
                    for n, x in t.a[2]:
                        if n == f:
                            out |= x
                            break
                    else:
                        if t.a[1] == "?" or not t.a[2]:
                            out.add(T("fld", t, e))
                elif t.k in ("tup", "arr"):
                    i = int(f) if f.isdigit() else -1
                    if 0 <= i < len(t.a[0]):
                        out |= t.a[0][i]
                elif t.k == "clos":
                    i = int(f) if f.isdigit() else -1
                    if 0 <= i < len(t.a[1]):
                        out |= t.a[1][i]
                elif t.k == "ref":
                    out |= self.proj(st, self.read_ref(st, t), e)
                elif t.k == "top":
                    out.add(TOP)
                else:
                    out.add(T("fld", t, e))
            elif e[0] == "@":
                n = e[1:]
                if t.k == "adt":
                    if t.a[1] == n:
                        out.add(t)
                elif t.k == "sym" and t.a[2]:
                    if t.a[2] == n:
                        out.add(T("fld", t, e))
                elif t.k == "top":
                    out.add(TOP)
                elif t.k == "ref":
                    out |= self.proj(st, self.read_ref(st, t), e)
                else:
                    out.add(T("fld", t, e))
            elif e[0] == "[":
                if t.k == "top":
                    out.add(TOP)
                elif t.k == "arr" or t.k == "seq":
                    out |= self.elems(v(t), e)
                else:
                    out |= self.elems(v(t), e)
            else:
                out.add(TOP)
        return norm(frozenset(out))

    def elems(self, V, e=None):
        out = set()
        for t in V:
            if t.k == "arr":
                if e and e.endswith("]c") and not e.startswith("[-"):
                    i = int(e[1:-2])
                    if i < len(t.a[0]):
                        out |= t.a[0][i]
                        continue
                for x in t.a[0]:
                    out |= x
            elif t.k in ("seq", "it"):
                if e and e.endswith("]c") and not e.startswith("[-"):
                    i = int(e[1:-2])
                    if all(p[0] == "e" for p in t.a[0][:i + 1]):
                        if i < len(t.a[0]):
                            out |= t.a[0][i][1]
                        continue
                for p in t.a[0]:
                    out |= p[1]
            elif t.k == "top":
                out.add(TOP)
            else:
                out.add(T("elem", t))
        return norm(frozenset(out))

    def index(self, st, fid, e):
        """A projection by an index variable holding a known number is one by that number."""
        if e[0] == "[" and e[-1] == "]" and e[1:-1].isdigit():
            V = st.get(fid, int(e[1:-1]))
            if V is not None and len(V) == 1:
                t = next(iter(V))
                if t.k == "i" and isinstance(t.a[0], int) and t.a[0] >= 0:
                    return f"[{t.a[0]}]c"
        return e

    def read_ref(self, st, t):
        cell, projs = t.a
        V = st.get(cell[0], cell[1])
        if V is None:
            return VTOP
        for e in projs:
            V = self.proj(st, V, e)
        return V

    def read(self, st, fid, place):
        V = st.get(fid, place[0])
        if V is None:
            V = VTOP
        for e in place[1:]:
            V = self.proj(st, V, self.index(st, fid, e))
            if not V:
                return V
        return V

    def refs_of(self, st, fid, place):
        """Cells a place may denote, as (cell, projs); None when through an opaque pointer."""
        cur = [((fid, place[0]), ())]
        for e in place[1:]:
            nxt = []
            if e == "*":
                for cell, pr in cur:
                    V = st.get(*cell)
                    if V is None:
                        return None
                    for q in pr:
                        V = self.proj(st, V, q)
                    for t in V:
                        if t.k == "ref":
                            nxt.append((t.a[0], t.a[1]))
                        else:
                            # transparent pointer (Box or snapshot): same cell
                            nxt.append((cell, pr))
                cur = list(dict.fromkeys(nxt))
            else:
                e = self.index(st, fid, e)
                cur = [(c, pr + (e,)) for c, pr in cur]
        return cur

    def upd(self, V, projs, new, strong=True):
        """V with the sub-value at projs replaced."""
        if not projs:
            return new if strong else norm(V | new)
        e = projs[0]
        out = set()
        for t in V:
            if e[0] == "@":
                out |= self.upd(v(t), projs[1:], new, strong)
            elif e[0] == ".":
                f = e[1:]
                if t.k == "adt":
                    fs, hit = [], False
                    for n, x in t.a[2]:
                        if n == f:
                            hit = True
                            fs.append((n, self.upd(x, projs[1:], new, strong)))
                        else:
                            fs.append((n, x))
                    if not hit:
                        fs.append((f, self.upd(v(T("fld", t, e)), projs[1:], new, strong)))
                    out.add(T("adt", t.a[0], t.a[1], tuple(fs)))
                elif t.k == "tup" and f.isdigit() and int(f) < len(t.a[0]):
                    xs = list(t.a[0])
                    xs[int(f)] = self.upd(xs[int(f)], projs[1:], new, strong)
                    out.add(T("tup", tuple(xs)))
                elif t.k == "upd":
                    base, fs = t.a
                    d = dict(fs)
                    old = d.get(f, v(T("fld", base, e)))
                    d[f] = self.upd(old, projs[1:], new, strong)
                    out.add(T("adt", "?", "?", tuple(d.items())))
                elif t.k == "top":
                    out.add(TOP)
                else:
                    # a struct seen only opaquely: remember the overwritten field
                    out.add(T("adt", "?of", show(t)[:80], (("", v(t)), (f, self.upd(v(T("fld", t, e)), projs[1:], new, strong)))))
            else:
                i = int(e[1:-2]) if e.endswith("]c") and e[1:-2].isdigit() else None
                if i is not None and t.k == "arr" and i < len(t.a[0]):
                    out.add(T("arr", tuple(self.upd(x, projs[1:], new, strong) if j == i else x for j, x in enumerate(t.a[0]))))
                elif i is not None and t.k == "seq" and i < len(t.a[0]) and all(p[0] == "e" for p in t.a[0][:i + 1]):
                    out.add(T("seq", tuple((p[0], self.upd(p[1], projs[1:], new, strong) if j == i else p[1]) for j, p in enumerate(t.a[0]))))
                elif t.k == "arr":
                    out.add(T("arr", tuple(norm(x | new) for x in t.a[0])) if e[0] == "[" else TOP)
                elif t.k == "seq":
                    out.add(T("seq", tuple((p[0], norm(p[1] | new)) for p in t.a[0])))
                else:
                    out.add(T("mut", t))
        return norm(frozenset(out))

    def write(self, st, fid, place, V):
        if len(place) == 1:
            st.set(fid, place[0], V)
            return
        cells = self.refs_of(st, fid, place)
        if not cells:
            return
        strong = len(cells) == 1
        for cell, pr in cells:
            old = st.get(*cell)
            if not pr:
                st.set(cell[0], cell[1], V if strong or old is None else norm(old | V))
                continue
            if old is None:
                # field-wise initialisation
                old = v(T("adt", "?", "?", ()))
            st.set(cell[0], cell[1], self.upd(old, pr, V, strong))

    # ---------- operands, constants
    def const(self, k):
        if k is None:
            return VTOP
        if "fn" in k and "t" not in k:
            return v(T("fn", k.get("res") or k["fn"]))
        x = self.cv(k.get("v"))
        if x is not None and x.k == "adt" and "prom" in k and self.stack:
            V = self.promoted(self.stack[-1], k["prom"])        # with the fields
            if V is not None:
                return V
        if x is None:
            if "prom" in k and self.stack:
                V = self.promoted(self.stack[-1], k["prom"])
                if V is not None:
                    return V
            return v(T("const", k.get("item") or k.get("t", "?")))
        return v(x)

    def promoted(self, owner, i):
        """Value of a promoted constant, by interpreting the body that computes it."""
        name = f"{owner}::promoted[{i}]"
        if name in self.proms:
            return self.proms[name]
        b = self.p.bodies.get(name)
        out = None
        if b is not None and name not in self.stack:
            self.proms[name] = None
            st = State()
            V = frozenset()
            for ns, x in self.exec(b, [], st, self.fid("prom", name)):
                V |= self.strip(ns, x)
            if V and not any(t.k in ("top", "ref") or t.hasref for t in V):
                out = V
        self.proms[name] = out
        return out

    def cv(self, c):
        if c is None:
            return None
        if "s" in c:
            return S(c["s"])
        if "i" in c:
            return T("i", c["i"])
        if "bool" in c:
            return B(c["bool"])
        if "ch" in c:
            return T("ch", c["ch"])
        if "fl" in c:
            return T("fl", c["fl"])
        if "ref" in c:
            return self.cv(c["ref"])
        if "b" in c:
            return T("bytes", tuple(c["b"]))
        if "arr" in c:
            xs = [self.cv(x) for x in c["arr"]]
            return T("arr", tuple(v(x) if x is not None else VTOP for x in xs))
        if "tup" in c:
            xs = [self.cv(x) for x in c["tup"]]
            return T("tup", tuple(v(x) if x is not None else VTOP for x in xs))
        if "fn" in c:
            return T("fn", c["fn"])
        if "zst" in c:
            return T("adt", c["zst"], "", ()) if c["zst"] else UNIT
        if "adt" in c:
            n, _, var = c["adt"].rpartition("::")
            a = self.p.adts.get(n)
            fs = []
            for i, x in enumerate(c.get("f") or []):
                y = self.cv(x)
                nm = a["vars"][0]["f"][i][0] if a and len(a["vars"]) == 1 else str(i)
                fs.append((nm, v(y) if y is not None else VTOP))
            return T("adt", n, var, tuple(fs))
        return None

    def op(self, st, fid, o):
        if "k" in o:
            return self.const(o["k"])
        return self.read(st, fid, o.get("c") or o.get("m"))

    # ---------- rvalues
    def rvalue(self, st, fid, body, r):
        k = r[0]
        if k == "use":
            return self.op(st, fid, r[1])
        if k == "ref":
            if r[1] == "mut":
                cells = self.refs_of(st, fid, r[2])
                if not cells:
                    return VTOP
                return frozenset(T("ref", c, tuple(pr)) for c, pr in cells)
            return self.read(st, fid, r[2])
        if k == "rawptr":
            if "Mut" in r[1]:
                cells = self.refs_of(st, fid, r[2])
                if not cells:
                    return VTOP
                return frozenset(T("ref", c, tuple(pr)) for c, pr in cells)
            return self.read(st, fid, r[2])
        if k == "cast":
            if r[1] == "BoxDerefTransmute":
                pl = r[2].get("c") or r[2].get("m")
                while len(pl) > 1 and pl[-1] == ".0":
                    pl = pl[:-1]
                return self.read(st, fid, pl)
            V = self.op(st, fid, r[2])
            if r[1] in ("PtrToPtr", "PointerCoercion", "Subtype", "Transmute", "FnPtrToPtr"):
                return V
            out = set()
            for t in V:
                if t.k == "i" and r[1] == "IntToInt":
                    out.add(castint(t.a[0], r[3]))
                elif t.k == "ch" and r[1] == "IntToInt" and isinstance(t.a[0], str) and len(t.a[0]) == 1:
                    out.add(castint(ord(t.a[0]), r[3]))
                elif t.k == "b" and r[1] == "IntToInt":
                    out.add(T("i", int(t.a[0])))
                elif t.k == "discr":
                    out.add(t)
                else:
                    out.add(T("cast", t, r[3]))
            return frozenset(out)
        if k == "bin":
            return self.binop(st, r[1], self.op(st, fid, r[2]), self.op(st, fid, r[3]))
        if k == "un":
            V = self.op(st, fid, r[2])
            out = set()
            for t in V:
                if r[1] == "Not" and t.k == "b":
                    out.add(B(not t.a[0]))
                elif r[1] == "Not" and t.k == "un" and t.a[0] == "Not":
                    out.add(t.a[1])
                elif r[1] == "Neg" and t.k == "i":
                    out.add(T("i", -t.a[0]))
                elif r[1] == "PtrMetadata":
                    out |= self.length(v(t))
                else:
                    out.add(T("un", r[1], t))
            return frozenset(out)
        if k == "discr":
            V = self.read(st, fid, r[1])
            return self.discr(st, V, r[2])
        if k == "agg":
            kind = r[1]
            vs = tuple(self.op(st, fid, o) for o in r[2])
            if isinstance(kind, dict):
                if "adt" in kind:
                    return v(T("adt", kind["adt"], kind["var"], tuple(zip(kind["fl"], vs))))
                return v(T("clos", kind.get("closure") or kind.get("coroutine"), vs))
            if kind == "tuple":
                return v(T("tup", vs))
            if kind == "array":
                return v(T("arr", vs))
            return VTOP
        if k == "repeat":
            return v(T("seq", (("star", self.op(st, fid, r[1])),)))
        return VTOP

    def vindex(self, enum, var):
        a = self.p.adts.get(enum)
        if a:
            for x in a["vars"]:
                if x["n"] == var:
                    return x["d"]
        return {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Borrowed": 0, "Owned": 1,
                "Less": -1, "Equal": 0, "Greater": 1, "Occupied": 0, "Vacant": 1}.get(var)

    def ndiscr(self, enum):
        a = self.p.adts.get(enum)
        if a:
            return frozenset(x["d"] for x in a["vars"])
        b = enum.split("<")[0]
        if b in ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"):
            return frozenset((0, 1))
        return None

    def discr(self, st, V, enum):
        out = set()
        for t in V:
            if t.k == "adt" and t.a[1] not in ("?",) and t.a[0] != "?of":
                i = self.vindex(t.a[0], t.a[1])
                out.add(T("i", i) if i is not None else T("discr", t, enum))
            elif t.k == "adt" and t.a[0] == "?of":
                out |= self.discr(st, t.a[2][0][1], enum)
            elif t.k == "sym" and t.a[2]:
                i = self.vindex(enum, t.a[2])
                out.add(T("i", i) if i is not None else T("discr", t, enum))
            elif t.k == "ref":
                out |= self.discr(st, self.read_ref(st, t), enum)
            else:
                d = T("discr", t, enum)
                f = st.facts.get(d)
                if f is not None and len(f) == 1:
                    out.add(T("i", next(iter(f))))
                else:
                    out.add(d)
        return frozenset(out)

    def binop(self, st, o, a, b):
        if len(a) == 1 and len(b) == 1:
            x, y = next(iter(a)), next(iter(b))
            if x.k == y.k and x.k in ("i", "b", "ch"):
                p, q = x.a[0], y.a[0]
                if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    return v(B({"Eq": p == q, "Ne": p != q, "Lt": p < q, "Le": p <= q, "Gt": p > q, "Ge": p >= q}[o]))
                if x.k == "i":
                    base = o.replace("WithOverflow", "").replace("Unchecked", "")
                    r = {"Add": p + q, "Sub": p - q, "Mul": p * q, "BitAnd": p & q, "BitOr": p | q, "BitXor": p ^ q}.get(base)
                    if r is not None:
                        if "WithOverflow" in o:
                            return v(T("tup", (v(T("i", r)), v(B(False)))))
                        return v(T("i", r))
                if x.k == "b":
                    r = {"BitAnd": p and q, "BitOr": p or q, "BitXor": p != q}.get(o)
                    if r is not None:
                        return v(B(r))
            if o == "Eq" and x is y and x.k not in ("top",):
                return v(B(True))
            if o == "Ne" and x is y and x.k not in ("top",):
                return v(B(False))
            if o in ("Eq", "Ne") and x.k == "discr" and y.k == "i":
                f = st.facts.get(x)
                if f is not None:
                    if y.a[0] not in f:
                        return v(B(o == "Ne"))
                    if len(f) == 1:
                        return v(B(o == "Eq"))
        elif o in ("Eq", "Ne") and len(a) * len(b) <= 64:
            out = set()
            for x in a:
                for y in b:
                    out |= self.binop(st, o, v(x), v(y))
            return norm(frozenset(out))
        if "WithOverflow" in o:
            return v(T("tup", (v(T("bin", o.replace("WithOverflow", ""), a, b)), v(T("ovf", o, a, b)))))
        return v(T("bin", o, a, b))

    # ---------- facts
    def assume(self, st, t, val):
        """Adds the fact that term t has integer/boolean value val; False when contradictory."""
        if t.k in ("i", "b"):
            return int(t.a[0]) == int(val)
        if t.k == "un" and t.a[0] == "Not":
            return self.assume(st, t.a[1], 1 - int(val))
        if t.k == "discr":
            dom = st.facts.get(t) or self.ndiscr(t.a[1])
            if dom is not None and val not in dom:
                return False
            st.facts[t] = frozenset([val])
            return True
        if t.k == "bin" and t.a[0] in ("Eq", "Ne") and len(t.a[1]) == 1 and len(t.a[2]) == 1:
            x, y = next(iter(t.a[1])), next(iter(t.a[2]))
            eq = (t.a[0] == "Eq") == bool(val)
            if x.k == "discr" and y.k == "i":
                if eq:
                    return self.assume(st, x, y.a[0])
                dom = st.facts.get(x) or self.ndiscr(x.a[1])
                if dom is not None:
                    dom = dom - {y.a[0]}
                    if not dom:
                        return False
                    st.facts[x] = dom
        if t.k == "eqs":
            x, lit = t.a
            key = T("strval", x)
            cur = st.facts.get(key)
            if val:
                if cur is not None and lit not in cur:
                    return False
                st.facts[key] = frozenset([lit])
            elif cur is not None:
                cur = cur - {lit}
                if not cur:
                    return False
                st.facts[key] = cur
        f = st.facts.get(t)
        if f is not None and int(val) not in f:
            return False
        st.facts[t] = frozenset([int(val)])
        return True

    def known(self, st, t):
        f = st.facts.get(t)
        if f is not None and len(f) == 1:
            return next(iter(f))
        return None

    # ---------- calls
    def length(self, V):
        out = set()
        for t in V:
            if t.k == "arr":
                out.add(T("i", len(t.a[0])))
            elif t.k == "seq" and all(p[0] == "e" for p in t.a[0]):
                out.add(T("i", len(t.a[0])))
            elif t.k == "bytes":
                out.add(T("i", len(t.a[0])))
            elif t.k == "str" and all(isinstance(p, str) for p in t.a[0]):
                out.add(T("i", sum(len(p.encode()) for p in t.a[0])))
            else:
                out.add(T("call", "len", (v(t),)))
        return frozenset(out)

    def run(self, body, args, st=None, facts=None):
        """Analyses body on abstract args from an empty store. Returns list of (state, value)."""
        if isinstance(body, str):
            body = self.p.fn(body)
        st = st or State()
        if facts:
            st.facts.update(facts)
        return self.exec(body, args, st, self.fid("root", body["name"]))

    def exec(self, body, args, st, fid):
        name = body["name"]
        self.stack.append(name)
        try:
            return self._exec(body, args, st, fid)
        finally:
            self.stack.pop()

    def _exec(self, body, args, st0, fid):
        name = body["name"]
        rpo = self.p.rpo(body)
        heads = body["_heads"]
        s = st0.copy()
        s.drop(fid)
        for i, a in enumerate(args):
            s.set(fid, i + 1, a)
        ins = {0: {s.key: s}}
        joins = {}
        dirty = {(0, s.key)}
        work = [(0, 0)]
        queued = {0}
        rets = {}
        while work:
            _, b = heapq.heappop(work)
            queued.discard(b)
            for key in list(ins[b]):
                if (b, key) not in dirty:
                    continue
                dirty.discard((b, key))
                self.blocks.add((name, b))
                for tgt, ns in self.block(body, b, ins[b][key].copy(), fid):
                    if self.unroll:
                        if tgt == "ret":
                            ns.key = tuple(x for x in ns.key if not (x[0] == "#" and x[1] == fid))
                        elif tgt in heads:
                            self.counters(body, ns, fid, tgt)
                    if tgt == "ret":
                        r = rets.get(ns.key)
                        if r is None:
                            rets[ns.key] = ns
                        else:
                            join(r, ns)
                        continue
                    d = ins.setdefault(tgt, {})
                    cur = d.get(ns.key)
                    if cur is None:
                        d[ns.key] = ns
                        ch = True
                    else:
                        n = joins[(tgt, ns.key)] = joins.get((tgt, ns.key), 0) + 1
                        _, ch = join(cur, ns, tgt in heads, n)
                    if ch:
                        dirty.add((tgt, ns.key))
                        if tgt not in queued:
                            queued.add(tgt)
                            heapq.heappush(work, (rpo.get(tgt, 0), tgt))
        out = []
        for k, r in rets.items():
            V = r.get(fid, 0)
            r.drop(fid)
            out.append((r, V if V is not None else v(UNIT)))
        return out

    INTS = frozenset(("usize", "isize", "i32", "u32", "i64", "u64", "u8", "i8", "u16", "i16"))

    def counters(self, body, st, fid, head):
        """Partitions the states at a loop head by the small constants held by integer variables."""
        m = st.mem.get(fid, {})
        cs = []
        for l in body["vars"]:
            l = int(l)
            if l < len(body["locals"]) and body["locals"][l] in self.INTS:
                V = m.get(l)
                if V is not None and len(V) == 1:
                    t = next(iter(V))
                    if t.k == "i" and 0 <= t.a[0] <= self.unroll + 1:
                        cs.append((l, t.a[0]))
        self.rekey(st, fid, ("c", head), tuple(cs) or None)

    def rekey(self, st, fid, what, val):
        k = [x for x in st.key if not (x[0] == "#" and x[1] == fid and x[2] == what)]
        if val is not None:
            k.append(("#", fid, what, val))
        st.key = tuple(sorted(k, key=repr))

    def block(self, body, b, st, fid):
        self.steps += 1
        if self.budget is not None and self.steps > self.budget:
            raise Budget("analysis budget exceeded")
        if self.deadline is not None and self.steps % 256 == 0 and time.time() > self.deadline:
            raise Budget("analysis time exceeded")
        bb = body["bb"][b]
        dsrc = {}
        for s in bb["s"]:
            if s[0] == "=":
                V = self.rvalue(st, fid, body, s[2])
                if s[2][0] in ("bin", "un") and len(s[1]) == 1:
                    V = narrow(V, s[2], str(body["locals"][s[1][0]]))
                if not V and s[2][0] in ("use", "ref", "discr", "cast"):
                    if s[2][0] == "discr":
                        return []
                    V = VTOP
                self.write(st, fid, s[1], V)
                if s[2][0] == "discr" and len(s[1]) == 1:
                    dsrc[s[1][0]] = (s[2][1], s[2][2])
            elif s[0] == "dead":
                m = st.mem.get(fid)
                if m and s[1] in m and not self.keep_dead:
                    st.set(fid, s[1], m[s[1]])
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "assert":
            V = self.op(st, fid, t[1])
            if V == v(B(not t[2])):
                self.panics.add((body["name"], t[3]))
                return []
            return [(t[4], st)]
        if k == "switch":
            return self.switch(body, b, st, fid, t, dsrc)
        if k == "call":
            return self.call(body, b, st, fid, t)
        return []

    keep_dead = True

    def switch(self, body, b, st, fid, t, dsrc):
        V = self.op(st, fid, t[1])
        targets = t[2]
        outs = []
        vals = [x[0] for x in targets]
        pl = t[1].get("c") or t[1].get("m")
        src = dsrc.get(pl[0]) if pl and len(pl) == 1 else None
        isbool = t[4] == "bool"

        def concrete(x):
            if x.k == "i":
                return x.a[0]
            if x.k == "b":
                return int(x.a[0])
            if x.k == "ch":
                return ord(x.a[0]) if x.a[0] else None
            kn = self.known(st, x)
            return kn if isinstance(kn, int) else None
        cs = {x: concrete(x) for x in V}
        unk = [x for x in V if cs[x] is None]
        single = next(iter(V)) if len(V) == 1 else None
        for val, tgt in targets:
            if not unk and val not in cs.values():
                continue
            ns = st.copy()
            if single is not None and cs[single] is None:
                if not self.assume(ns, single, val):
                    continue
            if not self.refine(ns, fid, body, src, [val], None):
                continue
            outs.append((tgt, ns))
        # otherwise
        live = [c for c in cs.values() if c is not None and c not in vals]
        if live or unk:
            ns = st.copy()
            okk = True
            if single is not None and cs[single] is None:
                if isbool and vals == [0]:
                    okk = self.assume(ns, single, 1)
                elif single.k == "discr":
                    dom = ns.facts.get(single) or self.ndiscr(single.a[1])
                    if dom is not None:
                        dom = frozenset(dom) - frozenset(vals)
                        if not dom:
                            okk = False
                        else:
                            ns.facts[single] = dom
            if okk and src is not None:
                okk = self.refine(ns, fid, body, src, None, vals)
            if okk:
                outs.append((t[3], ns))
        return outs

    def refine(self, st, fid, body, src, pos, neg):
        """Filters the alternatives of the matched place to the variants of the edge taken."""
        if src is None:
            return True
        place, enum = src
        V = self.read(st, fid, place)
        if len(V) == 1 and next(iter(V)).k not in ("adt", "sym"):
            return True
        keep = set()
        for t in V:
            if t.k == "adt" and t.a[1] != "?" and t.a[0] != "?of":
                i = self.vindex(t.a[0], t.a[1])
            elif t.k == "sym" and t.a[2]:
                i = self.vindex(enum, t.a[2])
            else:
                i = None
                f = st.facts.get(T("discr", t, enum))
                if f is not None and len(f) == 1:
                    i = next(iter(f))
            if i is None or (pos is not None and i in pos) or (neg is not None and i not in neg):
                keep.add(t)
        if not keep:
            return False
        if len(keep) < len(V):
            cells = self.refs_of(st, fid, place)
            if cells and len(cells) == 1:
                cell, pr = cells[0]
                if not pr:
                    st.set(cell[0], cell[1], frozenset(keep))
                else:
                    old = st.get(*cell)
                    if old is not None and len(old) == 1:
                        st.set(cell[0], cell[1], self.upd(old, pr, frozenset(keep)))
        return True

    def call(self, body, b, st, fid, t):
        k = t[1].get("k")
        args = [self.op(st, fid, a) for a in t[2]]
        site = (body["name"], b)
        outs = []
        if k and "fn" in k:
            callees = [(k, k.get("res") or k["fn"], args)]
        else:
            callees = []
            for f in self.op(st, fid, t[1]):
                if f.k == "fn":
                    callees.append(({"fn": f.a[0]}, f.a[0], args))
                elif f.k == "clos":
                    callees.append(({"fn": f.a[0]}, f.a[0], [v(f)] + args))
            if not callees:
                callees = [({"fn": "<indirect>"}, "<indirect>", args)]
        for rec, name, cargs in callees:
            s = st.copy() if len(callees) > 1 else st
            for ns, V in self.invoke(rec, name, cargs, s, site, fid, t):
                if t[4] is None:
                    continue
                if V is None or not V:
                    continue
                self.write(ns, fid, t[3], V)
                outs.append((t[4], ns))
        if t[4] is None:
            nm = callees[0][1] if callees else ""
            self.panics.add((body["name"], nm))
        # merge same-key outcomes is done by the caller
        return outs

    def invoke(self, rec, name, args, st, site, fid, t=None):
        self.event(name, site, args, st)
        if self.on_call is not None:
            r = self.on_call(self, st, name, rec, args, site)
            if r is not None:
                return r
        import models
        m = models.lookup(rec["fn"], name)
        body = self.p.bodies.get(name)
        if m is not None and not (body is not None and getattr(m, "prefer_body", False)):
            r = m(self, st, args, rec, site, fid)
            if r is not None:
                if isinstance(r, list):
                    return r
                return [(st, norm(r))]
        if body is not None and not self.opaque(name) and self.stack.count(name) <= self.recurse and len(self.stack) < self.maxdepth:
            return self.enter(body, args, st, site, fid)
        if body is None and rec["fn"].startswith(("core::panicking::", "std::rt::panic", "std::rt::begin_panic")):
            return []           # the path ends here
        if body is None and m is None:
            self.unmodelled[rec["fn"]] = self.unmodelled.get(rec["fn"], 0) + 1
        r = v(self.callterm(name, args, site, st))
        self.havoc(st, args, name)
        return [(st, r)]

    IMPURE = ("clang_", "std::fs::", "std::process", "std::io", "Iterator::next")

    def callterm(self, name, args, site, st=None):
        a = tuple(self.strip(st, x) for x in args)
        if self.opaque(name):
            return T("call", name, a)
        if any(_scan(x)[0] for x in args) or any(s in name for s in self.IMPURE):
            return T("call", name, a, site)
        return T("call", name, a)

    def strip(self, st, V, d=0):
        """Replaces references to cells by what they point at."""
        if not _scan(V)[0]:
            return V
        if st is None or d > 3:
            return VTOP
        out = set()
        for t in V:
            if t.k == "ref":
                out |= self.strip(st, self.read_ref(st, t), d + 1)
            elif t.hasref:
                out.add(TOP)
            else:
                out.add(t)
        return norm(frozenset(out))

    def havoc(self, st, args, name):
        seen = set()

        def go(V):
            for t in V:
                if t.k == "ref" and t not in seen:
                    seen.add(t)
                    cell, pr = t.a
                    old = st.get(*cell)
                    cur = self.read_ref(st, t) if old is not None else None
                    if cur is not None and cur and all(x.k == "sym" for x in cur):
                        # an input object stays the same object; what was learned about it does not
                        for f in [f for f in st.facts if any(mentions(f, x) for x in cur)]:
                            del st.facts[f]
                    elif old is not None:
                        tag = v(T("mutby", short(name)))
                        st.set(cell[0], cell[1], self.upd(old, pr, tag) if pr else tag)
                elif t.k in ("clos",):
                    for x in t.a[1]:
                        go(x)
                elif t.k in ("tup", "arr"):
                    for x in t.a[0]:
                        go(x)
        for a in args:
            go(a)

    def enter(self, body, args, st, site, fid):
        ref = any(_scan(a)[0] for a in args)
        mk = None
        if not ref and self.on_call is None:
            mk = (body["name"], tuple(args), frozenset(st.facts.items()), st.key)
            r = self.memo.get(mk)
            if r is not None:
                outs, ev, bl = r
                for k2, st2 in ev.items():
                    self.events.setdefault(k2, st2)
                return [(st.copy() if len(outs) > 1 else st, V) for V in outs]
        nf = self.fid(fid, site, body["name"])
        if mk is not None:
            saved = self.events
            self.events = {}
        try:
            res = self.exec(body, args, st, nf)
        finally:
            if mk is not None:
                ev = self.events
                self.events = saved
                for k2, st2 in ev.items():
                    self.events.setdefault(k2, st2)
        if mk is not None and all(r[0].key == st.key for r in res):
            self.memo[mk] = ([V for _, V in res], ev, None)
        # facts learned inside about terms of the caller stay valid only on that outcome; keep the caller's
        for r, _ in res:
            r.facts = {k2: x for k2, x in r.facts.items() if k2 in st.facts} | {k2: x for k2, x in r.facts.items() if k2 not in st.facts and len(res) == 1}
        return res

    def event(self, name, site, args, st):
        k = (name, site[0], site[1])
        if k not in self.events:
            self.events[k] = tuple(self.stack)

    def apply(self, f, args, st, site, fid):
        """Applies a closure/function value; returns (state, value) joined."""
        outs = []
        for t in f:
            if t.k == "clos":
                body = self.p.bodies.get(t.a[0])
                if body is None or len(self.stack) > self.maxdepth + 6 or self.stack.count(t.a[0]) > self.recurse:
                    outs.append((st, v(T("call", t.a[0], tuple(VTOP if _scan(a)[0] else a for a in args)))))
                    continue
                nf = self.fid(fid, site, t.a[0], "cl")
                cst = st.copy()
                for r, V in self.exec(body, [v(t)] + list(args), cst, nf):
                    outs.append((r, V))
            elif t.k == "fn":
                nm = t.a[0]
                for r, V in self.invoke({"fn": nm}, nm, list(args), st.copy(), site, fid):
                    outs.append((r, V))
            else:
                outs.append((st, v(T("call", "<apply>", (v(t),) + tuple(VTOP if _scan(a)[0] else a for a in args)))))
        if not outs:
            return None, None
        s, V = outs[0]
        s = s.copy()
        for r, w in outs[1:]:
            if r.key != s.key:
                s.key = min(s.key, r.key)
            join(s, r)
            V = norm(V | w)
        return s, V


def narrow(V, r, ty):
    """Machine arithmetic on constants: shifts, complement, and wrap-around of the destination's type."""
    if len(V) != 1:
        return V
    t = next(iter(V))
    num = lambda x: next(iter(x)).a[0] if len(x) == 1 and next(iter(x)).k == "i" else None
    if t.k == "bin" and t.a[0] in ("Shl", "Shr", "Div", "Rem") and isinstance(t.a[1], frozenset):
        p, q = num(t.a[1]), num(t.a[2])
        if p is None or q is None or t.a[0] in ("Div", "Rem") and q == 0 or t.a[0] in ("Shl", "Shr") and not 0 <= q < 128:
            return V
        d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1) if t.a[0] in ("Div", "Rem") else 0
        return v(castint({"Shl": lambda: p << q, "Shr": lambda: p >> q, "Div": lambda: d, "Rem": lambda: p - d * q}[t.a[0]](), ty))
    if t.k == "un" and t.a[0] == "Not" and t.a[1].k == "i" and ty != "bool":
        return v(castint(~t.a[1].a[0], ty))
    if t.k == "tup" and "WithOverflow" in str(r[1]) and ty.startswith("("):
        n = num(t.a[0][0])
        if n is not None:
            w = castint(n, ty[1:].split(",")[0].strip())
            if w.k == "i" and w.a[0] != n:
                return v(T("tup", (v(w), v(B(True)))))
    return V


def castint(n, ty):
    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128, "i128": 128}.get(ty)
    if ty == "char":
        return T("ch", chr(n))
    if bits is None:
        return T("i", n)
    n &= (1 << bits) - 1
    if ty[0] == "i" and n >> (bits - 1):
        n -= 1 << bits
    return T("i", n)
