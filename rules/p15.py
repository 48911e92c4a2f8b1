"""P15: the build order of a project. Abstract interpretation of building the dependency graph and ordering it, over every include graph of up
to three files and families of larger ones; the graph library is modelled by what it documents."""
import itertools
import re
from absint import *
import ctx
import p13
from models import deref, setref, lit

LEVEL = "other"
ASSUMPTIONS = ["the graph library's Topo visits, toposort returns and is_cyclic_directed answers what they document"]
one = p13.one


class World(p13.World):
    """Files, and graphs as terms: graph(nodes, edges)."""

    def graph(self, I, st, x):
        t = one(deref(I, st, x))
        return t if t is not None and t.k == "graph" else None

    def order(self, g):
        """Nodes in topological order as far as there is one."""
        es = g.a[1]
        left, out = list(range(len(g.a[0]))), []
        while True:
            k = next((n for n in left if not any(b == n and a in left for a, b in es)), None)
            if k is None:
                return out
            left.remove(k)
            out.append(k)

    def __call__(self, I, st, name, rec, args, site):
        n, f = short(name), (rec.get("fn") or "") + " " + name
        r = self.petgraph(I, st, n, f, args) if "petgraph" in f else None
        if r is None and "std::path::" in name and n == "parent" and args:
            p = lit(one(deref(I, st, args[0])))
            if p is not None:
                q = p.rsplit("/", 1)[0] if "/" in p else ""
                r = v(some(v(S(q or "/"))))
        return [(st, r)] if r is not None else p13.World.__call__(self, I, st, name, rec, args, site)

    def petgraph(self, I, st, n, f, a):
        if re.search(r"Graph.*::(new|default|with_capacity)$", f) and "Topo" not in f:
            return v(T("graph", (), ()))
        if re.search(r"Topo.*::new$", f):
            g = self.graph(I, st, a[0])
            return v(T("topo", tuple(self.order(g)))) if g else None
        if n == "next" and a:
            t = one(deref(I, st, a[0]))
            if t is not None and t.k == "topo":
                setref(I, st, a[0], v(T("topo", t.a[0][1:])))
                for r in a[0]:      # the rounds of the loop stay apart
                    if r.k == "ref":
                        I.rekey(st, r.a[0][0], ("n", "topo"), len(t.a[0]) or None)
                return v(some(v(T("node", t.a[0][0])))) if t.a[0] else v(NONE)
        g = self.graph(I, st, a[0]) if a else None
        if g is None:
            return None
        node = lambda x: one(deref(I, st, x)).a[0] if one(deref(I, st, x)) is not None and one(deref(I, st, x)).k == "node" else None
        if n == "add_node":
            setref(I, st, a[0], v(T("graph", g.a[0] + (a[1],), g.a[1])))
            return v(T("node", len(g.a[0])))
        if n in ("add_edge", "update_edge"):
            x, y = node(a[1]), node(a[2])
            if x is None or y is None:
                return None
            setref(I, st, a[0], v(T("graph", g.a[0], g.a[1] + ((x, y),))))
            return v(T("edge", len(g.a[1])))
        if n == "contains_edge":
            x, y = node(a[1]), node(a[2])
            return v(B((x, y) in g.a[1])) if None not in (x, y) else None
        if n == "node_count":
            return v(T("i", len(g.a[0])))
        if n == "edge_count":
            return v(T("i", len(g.a[1])))
        if n == "node_weight":
            x = node(a[1])
            return v(some(g.a[0][x])) if x is not None else None
        if n in ("index",):
            x = node(a[1])
            return g.a[0][x] if x is not None else None
        if n == "node_indices":
            return v(SEQ(tuple(("e", v(T("node", i))) for i in range(len(g.a[0])))))
        if n == "is_cyclic_directed":
            return v(B(len(self.order(g)) < len(g.a[0])))
        if n == "toposort":
            o = self.order(g)
            if len(o) < len(g.a[0]):
                return v(err(v(sym("cycle", "petgraph::algo::Cycle"))))
            return v(ok(v(SEQ(tuple(("e", v(T("node", i))) for i in o)))))
        return None


def sort(c, files, names):
    W = World(files, {})

    def interp(more=False):
        I = c.interp(on_call=W, unroll=60, maxdepth=30, more=more)
        I.hash_ordered = True
        return I
    I = interp()
    r = I.run(c.P.fn("DependencyGraph::from_files"), [v(SEQ(tuple(("e", v(S(n))) for n in names)))])
    c.done(I)
    if len(r) != 1 or p13.kinds(r[0][1]) != ["Ok"]:
        return None, r[0][1] if r else frozenset()
    st, V = r[0]
    cell = (("graph",), 0)
    st.set(cell[0], cell[1], one(V).a[2][0][1])
    I = interp(True)
    r = I.run(c.P.fn("DependencyGraph::topological_sort"), [v(T("ref", cell, ()))], st)
    c.done(I)
    if len(r) != 1:
        return None, v(TOP)
    return deref(I, r[0][0], r[0][1]), None


def cyclic(n, es):
    left = set(range(n))
    while True:
        k = next((x for x in left if not any(a == x and b in left for a, b in es)), None)
        if k is None:
            return bool(left)
        left.remove(k)


def check(c, item):
    key, names, es, style = item
    files = {x: "".join(style % b.rsplit("/", 1)[1] for i, b in enumerate(names) if (names.index(x), i) in es) + "int v;\n" for x in names}
    V, odd = sort(c, files, names)
    unknown = frozenset()
    ok_, what = True, ""
    if V is None:
        unknown = v(TOP)
        what = f"reading the includes gives {p13.kinds(odd)}"
        ok_ = False
        if p13.kinds(odd) == ["Err"]:
            unknown = frozenset()
    else:
        k = p13.kinds(V)
        if cyclic(len(names), es):
            ok_ = k == ["Err"]
            what = f"the includes are circular, but the result is {k}"
            unknown = frozenset() if k in (["Err"], ["Ok"]) else v(TOP)
        elif k != ["Ok"]:
            ok_ = False
            what = f"there is an order, but the result is {k}"
            unknown = frozenset() if k == ["Err"] else v(TOP)
        else:
            x = one(one(V).a[2][0][1]) if one(V) is not None else None
            got = [lit(one(p[1])) for p in x.a[0]] if x is not None and x.k in ("seq", "arr") and all(p[0] == "e" for p in x.a[0]) else None
            if got is None or None in got:
                ok_, unknown, what = False, v(TOP), "the order is not known"
            elif sorted(got) != sorted(names):
                ok_, what = False, f"the order is {got}: not every file exactly once"
            else:
                bad = [(names[a], names[b]) for a, b in es if got.index(names[b]) > got.index(names[a])]
                ok_ = not bad
                what = f"the order is {got}, but {bad[0][0]} includes {bad[0][1]}" if bad else ""
    c.ob(key, ok_, f"files {names}, includes {[(names[a], names[b]) for a, b in es]}: {what}", c.where(c.P.fn("DependencyGraph::topological_sort")), val=unknown or v(UNIT))


STYLES = ['#include "%s"\n', '  #include "%s"  \n', '#include <%s>\n', '#include "%s" // "other.h"\n', '#include\t"%s"\n']


def cases(deep):
    for n in (1, 2, 3):
        names = [f"/p/{chr(97 + i)}.h" for i in range(n)]
        ps = [(a, b) for a in range(n) for b in range(n)]
        for k in range(len(ps) + 1):
            for es in itertools.combinations(ps, k):
                yield f"{n} files:{' '.join(f'{a}>{b}' for a, b in es)}", names, es, STYLES[0]
    names = [f"/p/{chr(97 + i)}.h" for i in range(4)]
    ps = [(a, b) for a in range(4) for b in range(4) if a != b]
    every = list(itertools.chain(*[itertools.combinations(ps, k) for k in range(3, 7)]))
    for i, es in enumerate(every):
        if deep or i % 12 == 0:
            yield f"4 files:{' '.join(f'{a}>{b}' for a, b in es)}", names, es, STYLES[0]
    for s, st in enumerate(STYLES):
        for es in (((0, 1),), ((1, 0),), ((0, 1), (1, 2)), ((2, 1), (1, 0)), ((0, 1), (1, 0))):
            yield f"style {s}:{es}", names[:3], es, st
    names = [f"/p/m{i}.h" for i in range(12)]
    for nm, es in (("chain up", tuple((i, i + 1) for i in range(11))), ("chain down", tuple((i + 1, i) for i in range(11))),
                   ("star", tuple((0, i) for i in range(1, 12))), ("sink", tuple((i, 11) for i in range(11))),
                   ("ring", tuple((i, (i + 1) % 12) for i in range(12))), ("late ring", ((9, 10), (10, 11), (11, 9))),
                   ("diamonds", tuple((i, j) for i in range(0, 12) for j in range(i + 1, min(i + 3, 12))))):
        yield f"12 files:{nm}", names, es, STYLES[0]
    names = ["/p/a.h", "/q/a.h", "/p/b.h", "/q/b.h"]
    yield "two directories", names, ((0, 2), (3, 1)), STYLES[0]


def run(c):
    ctx.par(c, cases(c.deep), check)
    c.count("include graphs", c.nob)
    c.floor("include graphs", c.nob, 600)
