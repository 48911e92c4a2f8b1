"""A model of the libclang calls the parser makes, for analysing it on a described piece of syntax tree: cursors
with a kind and children, and the tokens of their extents.  Everything not described stays unknown."""
from absint import *
import models
from models import deref, setref, one

CONTINUE, RECURSE, BREAK = 1, 2, 0
PUNCT, KEYWORD, IDENT, LITERAL = 0, 1, 2, 3


def cursor(name, kind=None, children=(), tokens=None, between=None, spelling=None, **attr):
    return Cur(name, kind, list(children), tokens, between, spelling, attr)


class Cur:
    def __init__(self, name, kind, children, tokens, between, spelling, attr):
        self.name, self.kind, self.children = name, kind, children
        self.tokens, self.between, self.spelling, self.attr = tokens, between, spelling, attr
        self.t = T("cur", name)


class Env:
    """on_call hook. `extract`: for a workspace function applied to a described child cursor, the abstract result
    (function name suffix, Cur) -> value set or None."""

    def __init__(self, root, extract=None, extra=None):
        self.by = {}
        self.extract = extract
        self.extra = extra
        self.visited = []

        def reg(c):
            self.by[c.t] = c
            for k in c.children:
                reg(k)
        reg(root)
        self.root = root

    def cur(self, V):
        t = one(V)
        return self.by.get(t) if t is not None else None

    def __call__(self, I, st, name, rec, args, site):
        n = short(name)
        if self.extra is not None:
            r = self.extra(I, st, n, name, args, site)
            if r is not None:
                return r if isinstance(r, list) else [(st, r)]
        if n.startswith("clang_"):
            f = getattr(self, n, None)
            if f is not None:
                r = f(I, st, args, site)
                if r is not None:
                    return r if isinstance(r, list) else [(st, r)]
            return None
        if self.extract is not None and args:
            c = None
            for a in args:
                c = c or self.cur(a)
            if c is not None and c is not self.root and name in I.p.bodies and name not in I.stack:
                r = self.extract(n, c, I, st, args, site)
                if r is not None:
                    return [(st, r)]
        if n == "is_null" and args:
            t = one(deref(I, st, args[0]))
            if t is not None and t.k in ("toks", "tu", "file"):
                return [(st, v(B(False)))]
        if n in ("add", "offset") and "ptr" in name and args:
            t, i = one(args[0]), one(args[1])
            if t is not None and t.k == "toks":
                if i is not None and i.k == "i" and 0 <= i.a[0] < len(t.a[0]):
                    return [(st, v(t.a[0][i.a[0]]))]
                return [(st, frozenset(t.a[0]))]
        if n == "from_raw_parts" and args:
            t = one(args[0])
            if t is not None and t.k == "toks":
                return [(st, v(SEQ(tuple(("e", v(x)) for x in t.a[0]))))]
        if n == "from_ptr" and "CStr" in name:
            return [(st, args[0])]
        if n == "to_str" and "CStr" in name:
            return [(st, v(ok(self.spell(I, args[0]))))]
        if n == "to_string_lossy" and "CStr" in name:
            return [(st, self.spell(I, args[0]))]
        return None

    def spell(self, I, V):
        out = set()
        for t in V:
            if t.k == "cxs":
                x = t.a[0]
                if x.k == "tok":
                    out.add(S(x.a[2]) if isinstance(x.a[2], str) else x.a[2])
                    continue
                c = self.by.get(x)
                if c is not None and c.spelling is not None:
                    out.add(S(c.spelling) if isinstance(c.spelling, str) else c.spelling)
                    continue
                out.add(T("spelling", x))
            else:
                out.add(T("spelling", t))
        return frozenset(out)

    # ---- libclang
    def clang_getCursorKind(self, I, st, a, site):
        c = self.cur(a[0])
        if c is None:
            t = one(a[0])
            return v(T("kind", t)) if t is not None else None
        if c.kind is None:
            return v(T("kind", c.t))
        return v(T("i", c.kind))

    def clang_Cursor_getTranslationUnit(self, I, st, a, site):
        return v(T("tu"))

    def clang_getCursorExtent(self, I, st, a, site):
        return v(T("ext", one(a[0]) or TOP))

    def clang_getRangeStart(self, I, st, a, site):
        return v(T("rs", one(a[0]) or TOP))

    def clang_getRangeEnd(self, I, st, a, site):
        return v(T("re", one(a[0]) or TOP))

    def clang_getRange(self, I, st, a, site):
        return v(T("rng", one(a[0]) or TOP, one(a[1]) or TOP))

    def clang_tokenize(self, I, st, a, site):
        t = one(a[1])
        toks = None
        if t is not None and t.k == "ext":
            c = self.by.get(t.a[0])
            if c is not None:
                toks = c.tokens
        elif t is not None and t.k == "rng":
            c = self.root
            ok_ = t.a[0].k == "re" and t.a[1].k == "rs"
            if ok_ and c.children and t.a[0].a[0] is T("ext", c.children[0].t) and len(c.children) > 1 and t.a[1].a[0] is T("ext", c.children[1].t):
                toks = c.between
            else:
                toks = c.tokens
        if toks is None:
            setref(I, st, a[2], v(T("sym", "tokens", "", None)))
            setref(I, st, a[3], v(T("sym", "num_tokens", "", None)))
            return v(UNIT)
        setref(I, st, a[2], v(T("toks", tuple(T("tok", i, k, s) for i, (k, s) in enumerate(toks)))))
        setref(I, st, a[3], v(T("i", len(toks))))
        return v(UNIT)

    def clang_getTokenKind(self, I, st, a, site):
        return frozenset(T("i", t.a[1]) if t.k == "tok" else T("call", "tokkind", (v(t),)) for t in a[0])

    def clang_getTokenSpelling(self, I, st, a, site):
        return frozenset(T("cxs", t) for t in a[1])

    def clang_getCursorSpelling(self, I, st, a, site):
        return frozenset(T("cxs", t) for t in a[0])

    def clang_getCString(self, I, st, a, site):
        return a[0]

    def clang_disposeString(self, I, st, a, site):
        return v(UNIT)

    def clang_disposeTokens(self, I, st, a, site):
        return v(UNIT)

    def clang_getNumArguments(self, I, st, a, site):
        return None

    def clang_getExpansionLocation(self, I, st, a, site):
        for i, x in enumerate(a[1:]):
            if any(t.k == "ref" for t in x):
                setref(I, st, x, v(T("file") if i == 0 else T("i", 1)))
        return v(UNIT)

    clang_getSpellingLocation = clang_getFileLocation = clang_getExpansionLocation

    def clang_visitChildren(self, I, st, a, site):
        c = self.cur(a[0])
        if c is None:
            return None
        fid = I.fid("visit", site, one(a[0]))
        cur = st
        outs = []
        self.visit(I, cur, c, a, site, fid)
        return v(T("i", 0))

    def visit(self, I, st, c, a, site, fid):
        for k in c.children:
            ns, V = I.apply(deref(I, st, a[1]), [v(k.t), v(c.t), a[2]], st, site, fid)
            if ns is None:
                return False
            self.visited.append((k.name, one(V)))
            models.merge_into(st, ns, True)
            st.facts = {f: x for f, x in st.facts.items() if f in ns.facts}
            if V == v(T("i", BREAK)):
                return False
            if V == v(T("i", RECURSE)):
                if not self.visit(I, st, k, a, site, fid):
                    return False
        return True
