"""P10: a source the C front end rejects is not translated: every diagnostic of error severity makes reading fail, nothing below does,
and every translation entry point hands the failure on."""
import itertools
import re
from absint import *
from csyn import *
import cg
import ctx
import p11
from models import deref, setref

LEVEL = "other"
ASSUMPTIONS = ["libclang reports the severity of its diagnostics and failure to parse as documented"]


class DiagEnv(Env):
    """libclang with diagnostics: (severity, line known?, file known?, category known?, fix-its)."""

    def __init__(self, root, diags, code=0, null=False):
        Env.__init__(self, root)
        self.diags, self.code, self.null = diags, code, null

    def clang_parseTranslationUnit2(self, I, st, a, site):
        if not self.null:
            setref(I, st, a[7], v(T("tu")))
        return v(T("i", self.code))

    def clang_getNumDiagnostics(self, I, st, a, site):
        return v(T("i", len(self.diags)))

    def which(self, a):
        t = one(a)
        return self.diags[t.a[0]] if t is not None and t.k == "diag" and isinstance(t.a[0], int) and t.a[0] < len(self.diags) else None

    def clang_getDiagnostic(self, I, st, a, site):
        t = one(a[1])
        return v(T("diag", t.a[0])) if t is not None and t.k == "i" else None

    def clang_getDiagnosticSeverity(self, I, st, a, site):
        d = self.which(a[0])
        return v(T("i", d[0])) if d else None

    def clang_getDiagnosticSpelling(self, I, st, a, site):
        return v(T("sym", "message", "name", None))

    def clang_getDiagnosticLocation(self, I, st, a, site):
        return v(T("sym", "location", "CXSourceLocation", None))

    def clang_getFileLocation(self, I, st, a, site):
        return v(UNIT)

    def clang_getDiagnosticCategory(self, I, st, a, site):
        return v(T("i", 0))

    def clang_getDiagnosticNumFixIts(self, I, st, a, site):
        return v(T("i", 0))

    def __call__(self, I, st, name, rec, args, site):
        if short(name) == "is_null" and args:
            t = one(deref(I, st, args[0]))
            return [(st, v(B(t is None or t.k != "tu")))]
        if name.startswith(("std::fs::", "std::env::", "std::path::")):
            r = {"read_to_string": ok(v(S("int x;"))), "current_dir": ok(v(S("/d"))), "is_absolute": B(True), "exists": B(True), "extension": some(v(S("c"))), "to_string_lossy": S("/d/x.c"), "to_str": some(v(S("/d/x.c"))),
                 "join": S("/d/x.c"), "display": S("/d/x.c"), "parent": some(v(S("/d")))}.get(short(name))
            if r is not None:
                return [(st, v(r))]
        if name.endswith("OsStr::to_str") and args:
            return [(st, v(some(deref(I, st, args[0]))))]
        return Env.__call__(self, I, st, name, rec, args, site)

    def clang_disposeDiagnostic(self, I, st, a, site):
        return v(UNIT)


def kinds(V):
    return sorted({t.a[1] if t.k == "adt" else t.k for t in V})


def read(c, entry, diags, code=0, null=False):
    f = func("fun", INT, [param("p1", INT)], block(calls("g"), ret(lv(var("x")))))
    env = DiagEnv(unit(f), diags, code, null)
    opq = lambda n: n.endswith(("Diagnostic::infer_note_and_help", "Diagnostic::build_snippet"))
    I = c.interp(on_call=env, unroll=60, maxdepth=60)
    I.recurse = 8
    b = c.P.fn(entry)
    out = frozenset()
    for _, V in I.run(b, [v(T("sym", "parser", "decy_parser::parser::CParser", None)), v(S("int x;"))]):
        out |= V
    c.done(I)
    return out, b


def check(c, item):
    key, entry, diags, code, null = item
    V, b = read(c, entry, [(s,) for s in diags], code, null)
    bad = code != 0 or null or any(s >= 3 for s in diags)
    want = ["Err"] if bad else ["Ok"]
    c.ob(key, kinds(V) == want, f"libclang returns code {code}{' and no translation unit' if null else ''} and diagnostics of severities {list(diags)} (3 and 4 are errors): reading gives {kinds(V)}", c.where(b), val=V)


def cases(deep):
    for e in ("CParser::parse", "CParser::parse_file"):
        n = e.split("::")[1]
        for k in range(0, 4):
            for ds in itertools.product((0, 1, 2, 3, 4), repeat=k):
                yield f"{n}:{','.join(map(str, ds))}", e, ds, 0, False
        for at in (0, 7, 19):
            for s in (3, 4):
                yield f"{n}:long {at} {s}", e, tuple(s if i == at else i % 3 for i in range(20)), 0, False
        yield f"{n}:long without error", e, tuple(i % 3 for i in range(20)), 0, False
        for code in (1, 2, 3, 4):
            yield f"{n}:code {code}", e, (), code, False
            yield f"{n}:code {code} null", e, (), code, True
        yield f"{n}:null", e, (), 0, True


SKIP = re.compile(r"::tests?\b|_tests?::|\{closure|::repl::run$|^decy::main$|^decy::run$|^decy::transpile_project$|::CParser::")
WRITE = re.compile(r"std::fs::(write|File::create|create_dir|create_dir_all|rename|copy|remove_file|remove_dir_all|OpenOptions::open)$")


def entries(c):
    """Functions of the product that read C through the parser, directly or not, and can fail."""
    P = c.P
    rev = {}
    for a, bs in P.callgraph().items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    todo, seen = [P.fn("CParser::parse")["name"], P.fn("CParser::parse_file")["name"]], set()
    while todo:
        for y in rev.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return sorted(n for n in seen if n in P.bodies and not SKIP.search(n) and str(P.bodies[n]["locals"][0]).startswith("core::result::Result<")), seen


def handed_on(c, item):
    key, n = item
    b = c.P.bodies[n]
    wrote = []

    def hook(I, st, name, rec, args, site):
        s = name.split("::")[-1]
        if s in ("parse", "parse_file") and "CParser" in name:
            return [(st, v(T("adt", "core::result::Result", "Err", (("0", v(sym("rejected", "anyhow::Error"))),))))]
        if s == "new" and "CParser" in name:
            return [(st, v(ok(v(sym("parser")))))]
        if s == "preprocess_includes":
            return [(st, v(ok(v(S("source")))))]
        if s == "read_to_string":
            return [(st, v(ok(v(sym("source", "alloc::string::String")))))]
        if WRITE.search(name):
            wrote.append(name)
        return None
    I = c.interp(on_call=hook, unroll=20, root=n)
    V = cg.runp(c, I, b, {})
    bad = [t for t in V if not rejected(t)]
    c.ob("handed on:" + n, bool(V) and not bad, f"when the parser rejects the source, {n} returns {show(frozenset(bad) or V)[:300]}", c.where(b), val=V)
    c.ob("nothing written:" + n, not wrote, f"when the parser rejects the source, {n} still calls {sorted(set(wrote))}", c.where(b))


def rejected(t):
    if t.k != "adt":
        return False
    if t.a[1] == "Err":
        return True
    # a result that says of itself that it failed
    x = one(dict(t.a[2]).get("0", frozenset()))
    f = dict(x.a[2]) if x is not None and x.k == "adt" else {}
    return one(f.get("compiles", frozenset())) is B(False) and one(f.get("errors", frozenset())) not in (None, SEQ(()))


COMMANDS = re.compile(r"^decy::(main|run|transpile_project)$")


def paths(c, reach):
    """The commands, too large to interpret: every call that reads C is assumed to have failed and every path followed."""
    n = 0
    for f in sorted(reach):
        b = c.P.bodies.get(f)
        if b is None or not COMMANDS.search(f) or not str(b["locals"][0]).startswith("core::result::Result<"):
            continue
        k = {}
        for i, t in c.P.calls(b):
            m, g, _ = p11.name(t[1])
            m = m if m in reach else g
            if m in reach and not m.endswith("repl::run") and t[3] and len(t[3]) == 1 and t[4] is not None and str(b["locals"][t[3][0]]).startswith("core::result::Result<"):
                lost = p11.Follow(c.P, b).run(i)
                n += 1
                k[m] = k.get(m, 0) + 1
                c.ob(f"command:{f}:{m}" + (f"#{k[m]}" if k[m] > 1 else ""), lost is None, f"when {m} (line {t[5]}) fails because the source is rejected, {f} can still return success", c.where(b))
    c.count("calls in commands", n)
    c.floor("calls in commands", n, 3)


def run(c):
    es, reach = entries(c)
    paths(c, reach)
    c.count("entry points", len(es))
    c.floor("entry points", len(es), 10)
    ctx.par(c, [(n, n) for n in es], handed_on)
    ctx.par(c, cases(c.deep), check)
