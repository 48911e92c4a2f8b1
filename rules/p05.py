"""P05: the type a C declaration gives an object is the type the Rust declaration gives it."""
from absint import *
from decls import *
import cg
import ctx
import emit
import models
import p06
from p06 import rust, hirt, text
from p03 import canon

LEVEL = "other"
ASSUMPTIONS = ["libclang reports cursor kinds, children order and types as documented", "`long` and `short` are read as `int` (documented approximation of the translator), so their width is not part of the property"]


def contexts(ty):
    yield "local", lambda: [fn_("f", VOID, [], block(decl("x", ty)))]
    yield "second local", lambda: [fn_("f", VOID, [], block(decl("w", CHAR), calls("e1"), decl("x", ty), decl("z", INT)))]
    yield "local in a loop", lambda: [fn_("f", VOID, [], block(while_(lv(var("c")), block(decl("x", ty), calls("e1")))))]
    yield "parameter", lambda: [fn_("f", VOID, [param("p", ty)], block())]
    yield "third parameter", lambda: [fn_("f", INT, [param("o", INT), param("q", ptr(CHAR)), param("p", ty), param("r", DOUBLE)])]
    if ty.kind not in (112, 114):
        yield "return", lambda: [fn_("f", ty, [], block(ret(lv(var("x")))))]
        yield "return of prototype", lambda: [fn_("f", ty, [param("o", INT)])]
        yield "method return", lambda: [class_("cl", [method("m", ty, [param("p", INT)], block(calls("e1")))])]
    yield "field", lambda: [struct_("s", [field_("fa", ty)])]
    yield "second field", lambda: [struct_("s", [field_("fz", CHAR), field_("fa", ty), field_("fb", ty)])]
    yield "global", lambda: [global_("g", ty)]
    yield "static global", lambda: [global_("g", ty, None, 3)]
    yield "extern global", lambda: [global_("g", ty, None, 2)]
    yield "typedef", lambda: [typedef_("t", ty)]
    yield "class field", lambda: [class_("cl", [field_("fa", ty)])]
    yield "method parameter", lambda: [class_("cl", [method("m", VOID, [param("p", ty)], block(calls("e1")))])]
    yield "constructor parameter", lambda: [class_("cl", [field_("fa", INT), ctor([param("p", ty)])])]
    yield "namespace", lambda: [namespace("ns", [fn_("f", VOID, [param("p", ty)], block()), struct_("s", [field_("fa", ty)])])]
    if ty.kind not in (112, 114) and not ty.pointee:
        yield "cast", lambda: [fn_("f", VOID, [], block(ret(cast(ty, lv(var("y"))))))]


def read(c, item):
    label, ctxn, mk = item
    ds = mk()
    V = parse(c, unit(*ds))
    t = tree(V)
    key = f"read:{ctxn}:{label}"
    where = c.where(c.P.fn("convert_type"))
    txt = "; ".join(d.text() for d in ds)[:300]
    if t is None:
        c.ob(key, False, f"`{txt}` is read as {show(V)[:400]}", where, val=V)
        return
    want, f = expected(ds), dict(t.a[2])
    bad = [p for p in PARTS if canon(f.get(p, frozenset())) != canon(seqv(want[p]))]
    g = frozenset().union(*[f.get(p, frozenset()) for p in bad]) if bad else V
    c.ob(key, not bad, f"{label} as the type of a {ctxn} (`{txt}`) is read as {show(g)[:500]}, not {[show(seqv(want[p]))[:300] for p in bad]}", where, val=g)


def lowered(c, item):
    label, ty = item
    b = c.P.fn("HirType::from_ast_type")
    I = c.interp(root=b["name"])
    I.recurse = 8
    I.fresh = True
    V = cg.runp(c, I, b, {0: ty})
    c.ob("lower:" + label, canon(V) == canon(v(hirt(ty))), f"{label} is lowered to {show(V)[:300]}, not {show(v(hirt(ty)))[:300]}", c.where(b), val=V)


def mapped(c, item):
    label, ty = item
    b = c.P.fn("CodeGenerator::map_type")
    I = c.interp(root=b["name"])
    I.recurse = 8
    I.fresh = True
    V = cg.runp(c, I, b, {0: hirt(ty)})
    got = {emit.spell(t) for t in V}
    okk = len(got) == 1 and None not in got and emit.sq(next(iter(got))) == rust(ty)
    c.ob("rust:" + label, okk, f"{label} becomes {show(V)[:300]}, not {rust(ty)}", c.where(b), val=V)


def placed(c, item):
    """The type in the places declarations are emitted: struct field, alias, global, class field, method, constructor, namespace."""
    label, ctxn, mk = item
    p06.check_emit(c, (f"{ctxn}:{label}", mk))


PLACES = ("field", "second field", "global", "static global", "typedef", "class field", "method parameter", "method return", "constructor parameter", "namespace")


def local(c, item):
    """A local variable without initializer is declared with its type."""
    label, ty = item
    b = c.P.fn("generate_statement_with_context")
    st = T("adt", cg.HS, "VariableDeclaration", (("name", v(S("xx"))), ("var_type", v(hirt(ty))), ("initializer", v(NONE))))
    I = c.interp(opaque=("default_value_for_type",) , root=b["name"])
    I.recurse = 8
    I.fresh = True
    V = cg.runp(c, I, b, {cg.arg_of_type(b, "HirStatement"): st})
    okk = bool(V)
    for t in V:
        s = "".join(p if isinstance(p, str) else emit.spell(T("str", (p,))) or "@" for p in t.a[0]) if t.k == "str" else ""
        m = emit.re.fullmatch(r"let (?:mut )?(?:xx|@): (.*?) = .*;", s.strip(), emit.re.S)
        okk = okk and bool(m) and emit.sq(m.group(1)) == rust(ty)
    c.ob("local:" + label, okk, f"a local of type {label} is declared as {show(V)[:300]}", c.where(b), val=V)


def signature(c, item):
    """Objects passed and returned by value have the same type in the signature, whatever else the function does."""
    label, which, mk = item
    ds = mk()
    prog = ast("Ast", "Ast", **{p: SEQ(tuple(("e", v(x)) for x in xs)) for p, xs in expected(ds).items()})
    for entry in p06.ENTRIES:
        V, _ = emit.pipeline(c, entry, prog, functions=True)
        where = c.where(c.P.fn(entry))
        key = f"signature:{entry}:{which}:{label}"
        ts = emit.texts(V)
        okk = bool(ts)
        f = dict(ds[0].exp[1].a[2])
        ps = p06.elems(next(iter(f["parameters"])))
        r = rust(next(iter(f["return_type"])))
        for s in ts or ():
            try:
                its = [x for x in emit.items(s) if x[0] == "method"]
            except (ValueError, AttributeError, IndexError):
                its = []
            okk = okk and len(its) == 1 and p06.same_params(ps, its[0][2]) and its[0][3] == ("" if r == "()" else r)
        c.ob(key, okk, f"{ds[0].text()} is translated to {show(V)[:400]}", where, val=V)


def signatures():
    one_ = [(l, t) for l, t in types() if t.kind not in (101, 112, 114) and not (t.canon and t.canon.kind in (101, 112, 114))]
    for l, t in one_:
        yield l, "parameter", lambda t=t: [fn_("f", VOID, [param("pa", t)], block())]
        yield l, "return", lambda t=t: [fn_("f", t, [], block(ret(lv(var("x")))))]
        yield l, "between others", lambda t=t: [fn_("f", INT, [param("pa", CHAR), param("pb", t), param("pc", DOUBLE)], block(ret(lv(var("pa")))))]
        yield l, "prototype", lambda t=t: [fn_("f", t, [param("pa", t), param("pb", t)])]
    yield "nothing", "void", lambda: [fn_("f", VOID, [], block())]


def run(c):
    ts = list(types())
    reads = [(l, n, mk) for l, t in ts for n, mk in contexts(t)]
    ctx.par(c, reads, read)
    asts = [(l, t.ast) for l, t in ts]
    ctx.par(c, asts, lowered)
    ctx.par(c, asts, mapped)
    ctx.par(c, asts, local)
    ctx.par(c, [(l, n, mk) for l, n, mk in reads if n in PLACES], placed)
    sg = list(signatures())
    ctx.par(c, sg, signature)
    c.count("signatures", len(sg))
    c.count("types", len(ts))
    c.count("declaration contexts", len(reads))
    c.floor("types", len(ts), 80)
