"""P06: every declaration at file scope is carried over completely; P05's type part shares the machinery."""
from absint import *
from decls import *
import re
import ctx
import emit
import models
from p03 import canon

LEVEL = "other"
ASSUMPTIONS = ["libclang reports cursor kinds, children order, types and constant values as documented"]


def check(c, item, fn="visit_function"):
    key, mk = item
    ds = mk()
    V = parse(c, unit(*ds))
    t = tree(V)
    want = expected(ds)
    where = c.where(c.P.fn(fn, required=False) or c.P.fn("CParser::parse"))
    txt = "; ".join(d.text() for d in ds)[:300]
    if t is None:
        c.ob("parse:" + key, False, f"`{txt}` is read as {show(V)[:500]}", where, val=V)
        return
    f = dict(t.a[2])
    for p in PARTS:
        w = v(SEQ(tuple(("e", v(x)) for x in want[p])))
        g = f.get(p, frozenset())
        c.ob(f"parse:{key}:{p}", canon(g) == canon(w), f"`{txt}`: {p} are read as {show(g)[:700]}, not {show(w)[:400]}", where, val=g)


I2 = lambda: [param("pa", INT), param("pb", ptr(CHAR))]
OPS = {"operator+": "Add", "operator-": "Sub", "operator*": "Mul", "operator/": "Div", "operator%": "Rem", "operator==": "Equal", "operator!=": "NotEqual", "operator<": "Less", "operator<=": "LessEqual", "operator>": "Greater",
       "operator>=": "GreaterEqual", "operator[]": "Index", "operator<<": "Shl", "operator>>": "Shr", "operator+=": "AddAssign", "operator-=": "SubAssign"}
B2 = lambda: block(calls("e1"), ret(lv(var("x"))))


SINGLE = {
    "function": lambda i: fn_(f"f{i}", INT, I2(), B2()), "prototype": lambda i: fn_(f"p{i}", INT, I2()), "void function": lambda i: fn_(f"v{i}", VOID, [], block(calls("e1"))),
    "struct": lambda i: struct_(f"s{i}", [field_("fa", INT), field_("fb", ptr(CHAR))]), "empty struct": lambda i: struct_(f"es{i}", []), "forward struct": lambda i: forward(f"fs{i}"), "anonymous typedef": lambda i: anon_typedef(f"at{i}", [field_("fa", INT), field_("fb", FLOAT)]),
    "typedef": lambda i: typedef_(f"t{i}", UINT), "enum": lambda i: enum_(f"e{i}", [(f"A{i}", 3, True), (f"B{i}", 4, False)]), "global": lambda i: global_(f"g{i}", INT), "initialised global": lambda i: global_(f"h{i}", INT, num(7)),
    "static global": lambda i: global_(f"sg{i}", DOUBLE, flit("1.5"), 3), "extern global": lambda i: global_(f"xg{i}", INT, None, 2), "const global": lambda i: global_(f"cg{i}", const(INT), num(4)), "array global": lambda i: global_(f"ag{i}", array(INT, 3), ilist(array(INT, 3), [num(4), num(5), num(6)])),
    "class": lambda i: class_(f"cl{i}", [field_("fa", INT), method("m1", INT, I2(), B2())]), "namespace": lambda i: namespace(f"ns{i}", [fn_("f1", INT, I2(), B2()), struct_("s", [field_("fa", INT)])]), "kernel": lambda i: cuda(f"k{i}", [414], "Global"),
}


def around():
    """Each kind of declaration next to each other kind, in both orders; long lists and equal members."""
    for a, x in SINGLE.items():
        yield f"twelve of {a}", lambda x=x: [x(i) for i in range(12)]
        for b, y in SINGLE.items():
            if "anonymous typedef" in (a, b) and "struct" in a + b:
                continue        # a spelled-out name next to an arbitrary one, which might be the same
            yield f"{a} then {b}", lambda x=x, y=y: [x(1), y(2)]
            yield f"{a}, {b}, {a}", lambda x=x, y=y: [x(1), y(2), x(3)]
    yield "all kinds", lambda: [x(i) for i, (k, x) in enumerate(SINGLE.items()) if k != "anonymous typedef"]
    yield "all kinds backwards", lambda: [x(i) for i, (k, x) in enumerate(reversed(list(SINGLE.items()))) if k != "anonymous typedef"]
    ts = [INT, UINT, CHAR, DOUBLE, ptr(INT), ptr(const(CHAR)), FLOAT, ptr(ptr(INT)), struct_ty("st"), array(INT, 4)]
    yield "struct with many fields", lambda: [struct_("s", [field_(f"f{i}", ts[i % 10]) for i in range(40)])]
    yield "struct with equal fields", lambda: [struct_("s", [field_(f"f{i}", INT) for i in range(20)])]
    yield "function with many parameters", lambda: [fn_("f", INT, [param(f"p{i}", ts[i % 9]) for i in range(30)], B2())]
    yield "function with equal parameters", lambda: [fn_("f", INT, [param(f"p{i}", INT) for i in range(14)], B2())]
    yield "enum with many constants", lambda: [enum_("e", [(f"A{i}", 100 - 7 * (i // 3) + i % 3, i % 3 == 0) for i in range(36)])]
    yield "enum with equal values", lambda: [enum_("e", [("A", 1, True), ("B", 1, True), ("C", 2, False), ("D", 2, True), ("E", 0, True), ("F", 0, True), ("G", 1, False)])]
    yield "enum descending", lambda: [enum_("e", [("A", 5, True), ("B", 0, True), ("C", -1, True), ("D", 0, False), ("E", 1, False)])]
    yield "array with many values", lambda: [global_("g", array(INT, 40), ilist(array(INT, 40), [num(i) for i in range(40)]))]
    yield "array with equal values", lambda: [global_("g", array(INT, 6), ilist(array(INT, 6), [num(3), num(3), num(0), num(0), num(3), num(0)]))]
    yield "class with many members", lambda: [class_("cl", [field_(f"f{i}", ts[i % 8]) for i in range(14)] + [method(f"m{i}", INT, I2(), B2()) for i in range(10)])]
    yield "namespace with many members", lambda: [namespace("ns", [fn_(f"f{i}", INT, I2(), B2()) for i in range(8)] + [struct_(f"s{i}", [field_("fa", INT)]) for i in range(8)])]


def cases():
    yield "function", lambda: [fn_("f", INT, I2(), B2())]
    yield "prototype", lambda: [fn_("f", INT, I2())]
    yield "no parameters", lambda: [fn_("f", VOID, [], block(calls("e1")))]
    yield "five parameters", lambda: [fn_("f", DOUBLE, [param(f"p{i}", t) for i, t in enumerate((INT, ptr(const(CHAR)), DOUBLE, ptr(ptr(INT)), struct_ty("st")))], B2())]
    yield "three functions", lambda: [fn_("f1", INT, I2(), B2()), fn_("f2", VOID, [], block()), fn_("f3", ptr(CHAR), [param("q", UINT)], B2())]
    yield "prototype then definition", lambda: [fn_("f1", INT, I2()), fn_("f2", INT, [], B2()), fn_("f1", INT, I2(), B2())]
    yield "struct", lambda: [struct_("s", [field_("fa", INT), field_("fb", ptr(CHAR)), field_("fc", array(DOUBLE, 3))])]
    yield "empty struct", lambda: [struct_("s", [])]
    yield "self-referential struct", lambda: [struct_("s", [field_("fv", INT), field_("next", ptr(struct_ty("s")))])]
    yield "struct with flexible array", lambda: [struct_("s", [field_("n", INT), field_("d", flexible(CHAR))])]
    yield "two structs", lambda: [struct_("s1", [field_("fa", INT)]), struct_("s2", [field_("fb", struct_ty("s1")), field_("fc", ptr(struct_ty("s1")))])]
    yield "anonymous typedef", lambda: [anon_typedef("t", [field_("fa", INT), field_("fb", FLOAT)])]
    yield "struct and typedef of the same name", lambda: [struct_("s", [field_("fa", INT), field_("fb", FLOAT)]), typedef_("s", struct_ty("s")), typedef_("t", ptr(struct_ty("s")))]
    yield "typedef", lambda: [typedef_("t", UINT)]
    yield "typedef of pointer", lambda: [typedef_("t", ptr(struct_ty("st")))]
    yield "typedef of function pointer", lambda: [typedef_("t", fnptr(INT, INT, ptr(CHAR)))]
    yield "struct and typedef", lambda: [struct_("s", [field_("fa", INT)]), typedef_("t", struct_ty("s"))]
    yield "enum", lambda: [enum_("e", [("A", 0, False), ("B", 1, False), ("C", 2, False)])]
    yield "enum with values", lambda: [enum_("e", [("A", 10, True), ("B", 11, False), ("C", -5, True), ("D", -4, False), ("E", 1 << 20, True)])]
    yield "enum with unknown values", lambda: [enum_("e", [("A", "k1", True), ("B", "k2", False), ("C", "k3", True)])]
    yield "anonymous enum", lambda: [enum_("", [("A", 1, True), ("B", 2, False)])]
    yield "two enums", lambda: [enum_("e1", [("A", 0, False)]), enum_("e2", [("B", 7, True), ("C", 8, False)])]
    for st, n in ((1, "plain"), (2, "extern"), (3, "static")):
        yield f"{n} global", lambda st=st: [global_("g", INT, None, st)]
        yield f"{n} const global", lambda st=st: [global_("g", const(INT), num(4) if st != 2 else None, st)]
        if st != 2:
            yield f"{n} initialised global", lambda st=st: [global_("g", INT, num(7), st)]
    yield "global with negative value", lambda: [global_("g", INT, unary("-", num(7)))]
    yield "global with constant expression", lambda: [global_("g", INT, binary("*", num(2), paren(binary("+", num(3), num(4)))))]
    yield "global float", lambda: [global_("g", DOUBLE, flit("1.5"))]
    yield "global character", lambda: [global_("g", CHAR, clit("x"))]
    yield "global pointer", lambda: [global_("g", ptr(INT))]
    yield "global array", lambda: [global_("g", array(INT, 8))]
    yield "global of struct type", lambda: [struct_("s", [field_("fa", INT)]), global_("g", struct_ty("s"))]
    yield "global string", lambda: [global_("g", ptr(const(CHAR)), string("abc"))]
    yield "global function pointer", lambda: [global_("g", fnptr(INT, INT))]
    yield "mixed", lambda: [global_("g1", INT), struct_("s", [field_("fa", INT)]), enum_("e", [("A", 3, True)]), typedef_("t", INT), fn_("f1", INT, I2(), B2()), global_("g2", DOUBLE, flit("2.0"), 3), fn_("f2", VOID, [], block(decl("loc", INT, num(1)), calls("e1")))]
    yield "local variables are not globals", lambda: [fn_("f1", VOID, [], block(decl("loc", INT, num(1)), while_(lv(var("x")), block(decl("in", DOUBLE), calls("e1"))))), global_("g", INT)]
    yield "linkage", lambda: [linkage([fn_("f1", INT, I2(), B2()), struct_("s", [field_("fa", INT)])]), fn_("f2", VOID, [], block(calls("e1")))]
    yield "unnamed parameters", lambda: [fn_("f", INT, [unnamed(INT), param("pb", DOUBLE), unnamed(ptr(CHAR))])]
    yield "struct declared, used and defined", lambda: [forward("s"), fn_("f1", VOID, [param("p", ptr(struct_ty("s")))], B2()), struct_("s", [field_("fa", INT), field_("fb", ptr(struct_ty("s")))])]
    yield "struct defined and declared again", lambda: [struct_("s", [field_("fa", INT)]), forward("s"), struct_("s2", [field_("fb", INT)])]
    yield "global declared and defined", lambda: [global_("g", INT), global_("g", INT, num(5))]
    yield "global defined and declared", lambda: [global_("g", INT, num(5)), global_("g", INT)]
    yield "global extern and defined", lambda: [global_("g", INT, None, 2), global_("g", INT, num(5))]
    yield "global defined and extern", lambda: [global_("g", DOUBLE, flit("5.5")), global_("h", INT, num(3)), global_("g", DOUBLE, None, 2)]
    yield "global extern with value", lambda: [global_("g", INT, num(5), 2), global_("h", INT)]
    yield "const global declared and defined", lambda: [global_("g", const(INT), None), global_("g", const(INT), num(5))]
    yield "global with value, again and extern", lambda: [global_("g", INT, num(5)), global_("g", INT, None, 2), global_("g", INT)]
    yield "static global declared and defined", lambda: [global_("g", INT, None, 3), global_("g", INT, num(5), 3)]
    yield "global array with values", lambda: [global_("g", array(INT, 3), ilist(array(INT, 3), [num(4), num(5), num(6)]))]
    yield "global array with one value", lambda: [global_("g", array(INT, 3), ilist(array(INT, 3), [num(4)]))]
    yield "global array with fewer values", lambda: [global_("g", array(INT, 4), ilist(array(INT, 4), [num(4), unary("-", num(1))]))]
    yield "global array of float", lambda: [global_("g", array(DOUBLE, 2), ilist(array(DOUBLE, 2), [flit("1.5"), flit("2.5")]))]
    yield "static global array", lambda: [global_("g", array(INT, 2), ilist(array(INT, 2), [num(0), num(9)]), 3)]
    yield "enum at the limits", lambda: [enum_("e", [("A", (1 << 31) - 1, True), ("B", -(1 << 31), True), ("C", -(1 << 31) + 1, False)])]
    yield "enum visited twice", lambda: [enum_("e", [("A", 3, True), ("B", 4, False)]), enum_("e", [("A", 3, True), ("B", 4, False)])]
    yield "enum and typedef of the same name", lambda: [enum_("e", [("A", 3, True), ("B", 4, False)]), typedef_("e", enum_ty("e"))]
    yield "three structs and three globals", lambda: [struct_(f"s{i}", [field_(f"f{i}{j}", t) for j, t in enumerate((INT, ptr(DOUBLE), UINT, CHAR)[:i + 1])]) for i in range(3)] + [global_(f"g{i}", t, num(i + 1), 1 + 2 * (i % 2)) for i, t in enumerate((INT, UINT, CHAR))]
    yield "functions of the same shape", lambda: [fn_(f"f{i}", t, [param("p", u)], B2()) for i, (t, u) in enumerate(((INT, UINT), (UINT, INT), (DOUBLE, FLOAT), (CHAR, SCHAR), (ptr(INT), ptr(UINT))))]
    yield "definition then prototype", lambda: [fn_("f1", INT, I2(), B2()), fn_("f2", INT, [], B2()), fn_("f1", INT, I2())]
    for q, ks in (("Global", [414]), ("Device", [413]), ("Host", [415]), ("HostDevice", [415, 413]), ("HostDevice", [413, 415]), (None, []), (None, [400]), ("Global", [400, 414])):
        yield f"cuda {q} {ks}", lambda q=q, ks=ks: [cuda("f", ks, q)]
    yield "two cuda functions", lambda: [cuda("f1", [414], "Global"), cuda("f2", [], None), cuda("f3", [413], "Device")]
    yield "class", lambda: [class_("cl", [field_("fa", INT), field_("fb", ptr(CHAR)), method("m1", INT, I2(), B2()), method("m2", VOID, [], block(calls("e1")), is_const=1)])]
    yield "class with constructor", lambda: [class_("cl", [field_("fa", INT), ctor(I2()), dtor(), method("m1", INT, [], B2())])]
    yield "class with default constructor", lambda: [class_("cl", [field_("fa", INT), ctor([]), method("m1", INT, [], B2())])]
    yield "empty class", lambda: [class_("cl", [])]
    yield "static and virtual methods", lambda: [class_("cl", [method("m1", INT, I2(), B2(), is_static=1), method("m2", INT, [], B2(), is_virtual=1), method("m3", VOID, [], block(), is_const=1, is_virtual=1)])]
    for sp, w in (("class Base", "Base"), ("struct Base", "Base"), ("class ns::Base", "Base"), ("Base", "Base"), ("struct a::b::Base", "Base")):
        yield f"derived from {sp}", lambda sp=sp, w=w: [class_("cl", [field_("fa", INT)], (sp, w))]
    for o, k in OPS.items():
        yield f"class with {o}", lambda o=o, k=k: [class_("cl", [method(o, INT, I2()[:1], B2(), concrete=True, op=k)])]
    yield "class with operator()", lambda: [class_("cl", [method("operator()", INT, I2()[:1], B2(), concrete=True)])]
    yield "two classes", lambda: [class_("c1", [field_("fa", INT)]), class_("c2", [field_("fb", struct_ty("c1")), method("m", INT, [], B2())])]
    yield "namespace", lambda: [namespace("ns", [fn_("f1", INT, I2(), B2()), struct_("s", [field_("fa", INT)]), class_("cl", [field_("fb", INT)])])]
    yield "namespace with two classes", lambda: [namespace("ns", [class_("c1", [field_("fb", INT)]), class_("c2", [field_("fc", DOUBLE), method("m", INT, [], B2())]), class_("c3", [dtor()])])]
    yield "namespace with three functions", lambda: [namespace("ns", [fn_("f1", INT, I2(), B2()), fn_("f2", VOID, [], block()), fn_("f3", DOUBLE, [param("q", UINT)], B2()), struct_("s1", [field_("fa", INT)]), struct_("s2", [field_("fb", CHAR)])])]
    yield "three levels of namespaces", lambda: [namespace("n1", [namespace("n2", [namespace("n3", [fn_("f", INT, [], B2())]), namespace("n4", [class_("cl", [field_("fa", INT)])])])])]
    yield "nested namespaces", lambda: [namespace("n1", [fn_("f1", INT, I2(), B2()), namespace("n2", [fn_("f2", VOID, [], block(calls("e1"))), struct_("s", [field_("fa", INT)])])]), fn_("f3", INT, [], B2())]
    yield "two namespaces", lambda: [namespace("n1", [fn_("f1", INT, [], B2())]), namespace("n2", [fn_("f2", INT, [], B2())])]


# ---------------------------------------------------------------------------------------------- into the Rust text
SCALAR = {"Void": "()", "Bool": "bool", "Int": "i32", "UnsignedInt": "u32", "Float": "f32", "Double": "f64", "Char": "u8", "SignedChar": "i8"}


def text(x):
    x = next(iter(x)) if isinstance(x, frozenset) else x
    return emit.spell(x)


def get(t, *path):
    for p in path:
        t = next(iter(dict(t.a[2])[p]))
    return t


def elems(t):
    return [next(iter(p[1])) for p in t.a[0]]


def rust(t):
    """The Rust type a C type stands for, without insignificant blanks."""
    return emit.sq(rust_(t))


def rust_(t):
    k = t.a[1]
    if k in SCALAR:
        return SCALAR[k]
    if k == "Pointer":
        return "*mut " + rust(get(t, "0"))
    if k in ("Struct", "TypeAlias", "Enum"):
        return text(get(t, "0"))
    if k == "Array":
        n = get(t, "size")
        return f"[{rust(get(t, 'element_type'))};{get(n, '0').a[0]}]" if n.a[1] == "Some" else f"[{rust(get(t, 'element_type'))}]"
    if k == "FunctionPointer":
        r = rust(get(t, "return_type"))
        return "fn(" + ",".join(rust(p) for p in elems(get(t, "param_types"))) + ")" + ("" if r == "()" else "->" + r)
    raise ValueError(k)


def hirt(t):
    """The same type after lowering."""
    if t.a[1] == "FunctionPointer":
        return T("adt", HT, "FunctionPointer", (("param_types", seqv([hirt(p) for p in elems(get(t, "param_types"))])), ("return_type", v(hirt(get(t, "return_type"))))))
    if t.a[1] == "Array":
        return T("adt", HT, "Array", (("element_type", v(hirt(get(t, "element_type")))), ("size", dict(t.a[2])["size"])))
    if t.a[1] == "Pointer":
        return T("adt", HT, "Pointer", (("0", v(hirt(get(t, "0")))),))
    return T("adt", HT, t.a[1], t.a[2])


HT = "decy_hir::HirType"


def zero(s):
    """Is the text a value all of whose parts are zero?"""
    s = s.strip()
    if re.fullmatch(r"0(\.0)?_?(f64|f32|[iu]\d+|[iu]size)?|(std|core)::ptr::null(_mut)?(::<.*>)?\(\)|Default::default\(\)|None|false|\w+::default\(\)", s):
        return True
    if s.startswith("[") and s.endswith("]"):
        return all(zero(x) for x in emit.split(s[1:-1].split(";")[0] if ";" in s else s[1:-1]))
    m = re.fullmatch(r"\w+\{(.*)\}", s)
    return bool(m) and all(zero(x.split(":", 1)[1]) for x in emit.split(m.group(1)) if ":" in x)


def value(s):
    """Number a constant text stands for."""
    s = re.sub(r"b'(.)'", lambda m: str(ord(m.group(1))), s)
    s = re.sub(r"(?<=[\d.])_?(f64|f32|[iu]\d+|[iu]size)", "", re.sub(r"\bas ?\w+", "", s))
    if not re.fullmatch(r"[\d.+*/%() -]+", s):
        return None
    try:
        return eval(s, {}, {})
    except Exception:
        return None


def number(e):
    """Number a described initializer stands for."""
    k = e.a[1]
    if k in ("IntLiteral", "CharLiteral"):
        return get(e, "0").a[0]
    if k == "FloatLiteral":
        return float(text(get(e, "0")))
    if k == "UnaryOp":
        return -number(get(e, "operand"))
    if k == "BinaryOp":
        a, b = number(get(e, "left")), number(get(e, "right"))
        return {"Multiply": a * b, "Add": a + b, "Subtract": a - b}[get(e, "op").a[1]]
    raise ValueError(k)


def wanted(d):
    """Items the program's declarations must become, as (kind, name, type or parts, check of the value)."""
    out = []
    enums = set()
    for s in d["structs"]:
        out.append(("struct", text(get(s, "name")), tuple((text(get(f, "name")), field_rust(get(f, "field_type"))) for f in elems(get(s, "fields"))), None))
    for e in d["enums"]:
        n = text(get(e, "name"))
        if n:
            enums.add(n)
            out.append(("type", n, "i32", None))
        for x in elems(get(e, "variants")):
            k = get(x, "value", "0").a[0]
            out.append(("const", text(get(x, "name")), "i32", lambda s, k=k: value(s) == k))
    for t in d["typedefs"]:
        n, u = text(get(t, "name")), get(t, "underlying_type")
        if n in enums or u.a[1] == "Struct" and text(get(u, "0")) == n:
            continue
        out.append(("type", n, {"size_t": "usize", "ssize_t": "isize", "ptrdiff_t": "isize"}.get(n) or rust(u), None))
    gs = {}
    for g in d["variables"]:
        n, i = text(get(g, "name")), get(g, "initializer")
        if get(g, "is_extern") == B(True) and i.a[1] == "None":
            gs.setdefault("extern " + n, g)
            continue
        if n not in gs or get(gs[n], "initializer").a[1] == "None" and i.a[1] == "Some":
            gs[n] = g
    for n, g in gs.items():
        if n.startswith("extern "):
            continue
        i = get(g, "initializer")
        ty = rust(get(g, "var_type"))
        fp = get(g, "var_type").a[1] == "FunctionPointer"
        if i.a[1] == "None":
            out.append(("static", n, ("Option<" + ty + ">", ty) if fp else ty, zero))
        elif get(i, "0").a[1] == "StringLiteral":
            out.append(("static", n, None, lambda s, w=text(get(i, "0", "0")): w in s))
        elif get(i, "0").a[1] == "CompoundLiteral":
            out.append(("static", n, ty, lambda s, i=get(i, "0"): literal(i, s)))
        else:
            out.append(("static", n, ty, lambda s, k=number(get(i, "0")): value(s) == k))
    fs = {}
    for f in d["functions"]:
        n = text(get(f, "name"))
        if n not in fs or not elems(get(fs[n], "body")) and elems(get(f, "body")):
            fs[n] = f
    return out, fs, {n[7:] for n in gs if n.startswith("extern ")}


def literal(e, s):
    """Does the text list the values of the described aggregate initializer, in order?"""
    t = get(e, "literal_type")
    xs = elems(get(e, "initializers"))
    if t.a[1] != "Array" or not s.startswith("[") or not s.endswith("]"):
        return False
    n = get(t, "size", "0").a[0]
    if ";" in s and not s.startswith("[["):
        x, k = s[1:-1].rsplit(";", 1)
        parts = [x] * int(k)
    else:
        parts = emit.split(s[1:-1])
    if len(parts) != n:
        return False
    for i, p in enumerate(parts):
        if i >= len(xs):
            if not zero(p):
                return False
        elif xs[i].a[1] == "CompoundLiteral":
            if not literal(xs[i], p):
                return False
        elif value(p) != number(xs[i]):
            return False
    return True


def field_rust(t):
    if t.a[1] == "Array" and get(t, "size").a[1] == "None":
        return "Vec<" + rust(get(t, "element_type")) + ">"
    return rust(t)


ENTRIES = ("transpile_with_includes", "process_ast_to_rust")


def same_params(ps, qs):
    """Do the parameters (name, Rust type) carry the described ones? An unnamed one may be called anything."""
    names = [n for n, _ in qs]
    return len(ps) == len(qs) and len(set(names)) == len(names) and all((text(get(p, "name")) == n or not text(get(p, "name"))) and n and rust(get(p, "param_type")) == t for p, (n, t) in zip(ps, qs))


def same_body(body, f, handed):
    """Does the text hold one stand-in per statement, in order?"""
    ss = elems(get(f, "body"))
    found = re.findall(r"\x01#(\d+)\x02", body)
    if re.sub(r"\x01#(\d+)\x02|\s", "", body).strip():
        return not ss and re.sub(r"\s", "", body) == "Default::default()" and get(f, "return_type").a[1] != "Void"
    return len(found) == len(ss) and all(any(x.a[1] == STMTS.get(t.a[1], t.a[1]) for x in handed[int(n)]) for n, t in zip(found, ss))


STMTS = {"FunctionCall": "Expression"}
TRAITS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem"}


def class_items(cl):
    """(what, matcher over one item) for everything a class must become."""
    n = text(get(cl, "name"))
    base = get(cl, "base_class")
    base = text(get(base, "0")) if base.a[1] == "Some" else None
    fields = [(text(get(f, "name")), field_rust(get(f, "field_type"))) for f in elems(get(cl, "fields"))]
    yield f"struct {n}", lambda x, h: x[:2] == ("struct", n) and x[2] == tuple(([("base", base)] if base else []) + fields)
    ms = [m for m in elems(get(cl, "methods")) if get(m, "operator_kind").a[1] == "None"]
    cps = elems(get(cl, "constructor_params"))
    if ms or cps:
        def impl(x, h):
            if x[:2] != ("impl", n) or len(x[2]) != len(ms) + bool(cps):
                return False
            got = list(x[2])
            if cps:
                g = got.pop(0)
                inits = dict((y.split(":", 1)[0].strip(), y.split(":", 1)[1].strip()) for y in emit.split(re.sub(r"^Self\s*\{|\}$", "", g[4].strip())))
                if g[:2] != ("method", "new") or g[3] != "Self" or not same_params(cps, g[2]) or set(inits) != {y for y, _ in fields} | ({"base"} if base else set()):
                    return False
            for m, g in zip(ms, got):
                f = get(m, "function")
                if g[:2] != ("method", text(get(f, "name"))):
                    return False
                ps = list(g[2])
                if get(m, "is_static") == B(False):
                    if not ps or ps.pop(0)[0] != ("&self" if get(m, "is_const") == B(True) else "&mut self"):
                        return False
                r = rust(get(f, "return_type"))
                if not same_params(elems(get(f, "parameters")), ps) or g[3] != ("" if r == "()" else r) or not same_body(g[4], f, h):
                    return False
            return True
        yield f"impl {n}", impl
    for m in elems(get(cl, "methods")):
        o = get(m, "operator_kind")
        if o.a[1] == "None":
            continue
        o = get(o, "0").a[1]
        f = get(m, "function")
        r = rust(get(f, "return_type"))
        rhs = rust(get(elems(get(f, "parameters"))[0], "param_type"))
        if o in TRAITS:
            yield f"operator {o}", lambda x, h, o=o, r=r, rhs=rhs: x[0] == "impl" and x[1] == f"std::ops::{o}<{rhs}>for {n}" and ("type", "Output", "", r) in x[2] and any(
                y[:2] == ("method", TRAITS[o]) and [q[0] for q in y[2]][:1] == ["self"] and y[2][1][1] == rhs for y in x[2])
        elif o == "Equal":
            yield "operator ==", lambda x, h: x[0] == "impl" and x[1] == f"PartialEq for {n}"
        elif o in ("AddAssign", "SubAssign"):
            yield f"operator {o}", lambda x, h, o=o, rhs=rhs: x[0] == "impl" and x[1] == f"std::ops::{o}<{rhs}>for {n}" and any(
                y[:2] == ("method", {"AddAssign": "add_assign", "SubAssign": "sub_assign"}[o]) and y[2][0][0] == "&mut self" and y[2][1][1] == rhs for y in x[2])
    if get(cl, "has_destructor") == B(True):
        yield f"Drop for {n}", lambda x, h: x[:2] == ("impl", f"Drop for {n}")
    if base:
        yield f"Deref for {n}", lambda x, h: x[:2] == ("impl", f"std::ops::Deref for {n}") and ("type", "Target", "", base) in x[2]
        yield f"DerefMut for {n}", lambda x, h: x[:2] == ("impl", f"std::ops::DerefMut for {n}")


def same_function(f, g):
    if len(g) != 1:
        return False
    g = g[0]
    ps, qs = elems(get(f, "parameters")), elems(get(g, "parameters"))
    names = [text(get(q, "name")) for q in qs]
    nb, b = len(elems(get(f, "body"))), get(g, "body")
    cq, gq = get(f, "cuda_qualifier"), get(g, "cuda_qualifier")
    return (get(g, "return_type") == hirt(get(f, "return_type")) and len(ps) == len(qs) and len(set(names)) == len(names)
            and all((text(get(p, "name")) in (n, "")) and n and get(q, "param_type") == hirt(get(p, "param_type")) and get(p, "is_pointee_const") == get(q, "is_pointee_const") for p, q, n in zip(ps, qs, names))
            and (b.a[1] == "None" and nb == 0 or b.a[1] == "Some" and len(elems(get(b, "0"))) == nb) and cq.a[1] == gq.a[1] and (cq.a[1] == "None" or get(cq, "0").a[1] == get(gq, "0").a[1]))


def compare(c, k, txt, its, want, handed, where, V, top=True):
    w, fs, externs = wanted(want)
    rest = [x for x in its if x[0] != "fn" and not (top and x[0] in ("static", "const") and x[1] in ("ERRNO", "_"))]
    for kind, n, ty, chk in w:
        hit = [x for x in rest if x[1] == n and (x[0] == kind or kind == "static" and x[0] == "const")]
        same = [x for x in hit if (x[2] == ty if kind == "struct" else x[3] == ty if kind == "type" else ty is None or x[2] == ty or isinstance(ty, tuple) and x[2] in ty)
                and (chk is None or chk(x[3]))]
        c.ob(f"{k}:{kind} {n}", len(hit) == 1 and len(same) == 1, f"`{txt}`: the {kind} {n} is emitted as {hit}, expected once with {ty}", where, val=V)
        rest = [x for x in rest if x not in hit]
    for cl in want["classes"]:
        for what, m in class_items(cl):
            hit = [x for x in rest if m(x, handed)]
            near = [x for x in rest if x[0] in ("struct", "impl")]
            c.ob(f"{k}:{what}", len(hit) == 1, f"`{txt}`: no item is the {what} of the class; emitted: {near}", where, val=V)
            rest = [x for x in rest if x not in hit]
    for ns in want["namespaces"]:
        n = text(get(ns, "name"))
        hit = [x for x in rest if x[0] == "mod" and x[1] == n]
        c.ob(f"{k}:namespace {n}", len(hit) == 1, f"`{txt}`: the namespace {n} is emitted {len(hit)} times", where, val=V)
        for x in hit[:1]:
            sub = {p: [] for p in PARTS}
            sub.update({p: elems(get(ns, p)) for p in ("functions", "structs", "classes", "namespaces")})
            compare(c, f"{k}:{n}", txt, x[2], sub, handed, where, V, False)
        rest = [x for x in rest if x not in hit]
    rest = [x for x in rest if x[1] not in externs]
    c.ob(f"{k}:nothing else", not rest, f"`{txt}`: also emitted: {rest}", where, val=V)
    got = {}
    for x in its:
        if x[0] == "fn":
            for f in handed[x[1]]:
                got.setdefault(text(get(f, "name")), []).append(f)
    for n, f in fs.items():
        g = got.pop(n, [])
        c.ob(f"{k}:function {n}", same_function(f, g), f"`{txt}`: function {n} reaches the generator as {show(frozenset(g))[:600]}", where, val=V)
    c.ob(f"{k}:no other function", not got, f"`{txt}`: other functions: {list(got)}", where, val=V)


def check_emit(c, item):
    key, mk = item
    ds = mk()
    want = expected(ds)
    if "unknown" in key:
        return
    prog = ast("Ast", "Ast", **{p: SEQ(tuple(("e", v(x)) for x in xs)) for p, xs in want.items()})
    txt = "; ".join(d.text() for d in ds)[:200]
    for entry in ENTRIES:
        k = f"emit:{entry}:{key}"
        where = c.where(c.P.fn(entry))
        V, handed = emit.pipeline(c, entry, prog)
        ts = emit.texts(V)
        if ts is None:
            c.ob(k, False, f"`{txt}` gives {show(V)[:300]}", where, val=V)
            continue
        for s in ts:
            try:
                its = emit.items(s)
            except (ValueError, AttributeError, IndexError) as e:
                c.ob(k, False, f"`{txt}`: the text is not a sequence of items ({e}): {s[:400]!r}", where, val=V)
                continue
            compare(c, k, txt, its, want, handed, where, V)


def run(c):
    ctx.par(c, list(cases()) + list(around()), check)
    ctx.par(c, list(cases()) + list(around()), check_emit)
