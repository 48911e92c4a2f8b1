"""Described declarations (types, functions, structs, enums, typedefs, globals, classes, namespaces) for the rules on types and declarations."""
from absint import *
from csyn import *

USHORT, ULONG, SHORT, LONG, LLONG, ULLONG, LDOUBLE = (Ty(8, aty("UnsignedInt"), "unsigned short"), Ty(10, aty("UnsignedInt"), "unsigned long"), Ty(16, aty("Int"), "short"),
    Ty(18, aty("Int"), "long"), Ty(19, aty("Int"), "long long"), Ty(11, aty("UnsignedInt"), "unsigned long long"), Ty(23, aty("Double"), "long double"))
SCALARS = {t.spelling: t for t in (BOOL, INT, UINT, CHAR, SCHAR, UCHAR, FLOAT, DOUBLE, USHORT, ULONG, SHORT, LONG, LLONG, ULLONG, LDOUBLE)}


def seqv(xs):
    return v(SEQ(tuple(("e", v(x)) for x in xs)))


def const(t):
    return Ty(t.kind, t.ast, "const " + t.spelling, pointee=t.pointee, elem=t.elem, size=t.size, decl=t.decl, canon=t.canon, result=t.result, args=t.args, const=True)


def struct_ty(n):
    """The type `struct n` as written: an elaborated type whose canonical type is the record."""
    d = N(2, [], None, spelling=Name(n))
    rec = Ty(105, aty("Struct", nm(Name(n))), "struct " + n, decl=d)
    return Ty(119, rec.ast, "struct " + n, canon=rec, decl=d)


def enum_ty(n):
    d = N(5, [], None, spelling=Name(n))
    e = Ty(106, aty("Int"), "enum " + n, decl=d)
    return Ty(119, e.ast, "enum " + n, canon=e, decl=d)


def alias(n, t, concrete=False):
    """A typedef name: stands for its underlying type."""
    c = t
    while c.canon is not None:
        c = c.canon
    d = N(20, [], None, spelling=n, under=t)      # spelled out: the names size_t, ssize_t and ptrdiff_t are kept as they are
    return Ty(107, aty("TypeAlias", S(n)) if concrete else t.ast, n, canon=c, decl=d)


def ealias(n, t):
    """A typedef name as written in a declaration: recent libclang wraps it in an elaborated type."""
    a = alias(n, t)
    return Ty(119, t.ast, n, canon=a.canon, decl=a.decl)


def anon_alias(n, fields, old=False):
    """typedef struct { fields } n; -- libclang gives the struct the name of the typedef (old versions: none)."""
    d = N(2, ["struct", "{"] + [x for f in fields for x in (f, ";")] + ["}"], None, spelling="" if old else n)
    rec = Ty(105, aty("Struct", S(n)), n, decl=d)
    td = N(20, [], None, spelling=n, under=rec)
    return Ty(107, rec.ast, n, canon=rec, decl=td), d


def fnptr(r, *ps):
    f = Ty(111, None, "fn", result=r, args=list(ps))
    return Ty(101, T("adt", AST + "Type", "FunctionPointer", (("param_types", seqv([p.ast for p in ps])), ("return_type", v(r.ast)))), "fnptr", pointee=f)


def flexible(t):
    return Ty(114, T("adt", AST + "Type", "Array", (("element_type", v(t.ast)), ("size", v(NONE)))), t.spelling + " []", elem=t, size=-1)


def types():
    """Labelled types of every kind and nesting."""
    yield from SCALARS.items()
    for n, t in list(SCALARS.items()):
        yield f"{n} *", ptr(t)
        yield f"const {n} *", ptr(const(t))
        yield f"{n} [4]", array(t, 4)
        yield f"typedef {n}", alias("al", t)
        yield f"typedef {n} (elaborated)", ealias("al", t)
        yield f"pointer to typedef {n} (elaborated)", ptr(ealias("al", t))
        yield f"array of typedef {n} (elaborated)", array(ealias("al", t), 4)
        yield f"typedef pointer to {n} (elaborated)", ealias("al", ptr(t))
        yield f"typedef {n} (my_size_t)", alias("my_size_t", t)
        yield f"pointer to typedef {n}", ptr(alias("uint_t", t))
    yield "void *", ptr(VOID)
    yield "int **", ptr(ptr(INT))
    yield "char ***", ptr(ptr(ptr(CHAR)))
    yield "int [2][3]", array(array(INT, 3), 2)
    yield "int *[5]", array(ptr(INT), 5)
    s = struct_ty("st")
    yield "struct", s
    yield "struct *", ptr(s)
    yield "struct **", ptr(ptr(s))
    yield "const struct *", ptr(const(s))
    yield "struct [3]", array(s, 3)
    yield "typedef struct", alias("al", s)
    yield "typedef struct (elaborated)", ealias("al", s)
    yield "typedef struct * (elaborated)", ealias("al", ptr(s))
    yield "typedef array (elaborated)", ealias("al", array(UINT, 3))
    yield "typedef function pointer (elaborated)", ealias("al", fnptr(FLOAT, ealias("al", INT), ptr(s)))
    yield "typedef enum (elaborated)", ealias("al", enum_ty("en"))
    yield "typedef struct *", alias("al", ptr(s))
    yield "pointer to typedef struct", ptr(alias("al", s))
    yield "enum", enum_ty("en")
    yield "typedef enum", alias("al", enum_ty("en"))
    yield "anonymous typedef struct", anon_alias("al", [field_("fa", INT)])[0]
    yield "pointer to anonymous typedef struct", ptr(anon_alias("al", [field_("fa", INT)])[0])
    yield "typedef of typedef", alias("al", alias("al2", UINT))
    for n in ("size_t", "ssize_t", "ptrdiff_t"):
        yield n, alias(n, ULONG if n == "size_t" else LONG, True)
        yield n + " *", ptr(alias(n, ULONG if n == "size_t" else LONG, True))
    yield "function pointer", fnptr(INT, DOUBLE, ptr(CHAR))
    yield "function pointer to void", fnptr(VOID)
    yield "function pointer with three", fnptr(ptr(s), s, UINT, SCHAR)
    yield "array of function pointers", array(fnptr(INT, INT), 2)
    yield "typedef function pointer", alias("al", fnptr(FLOAT, INT))


def field_(n, ty):
    return N(6, [ty.spelling, Name(n)], None, spelling=Name(n), ty=ty)


def fexp(f):
    return ast("StructField", "StructField", name=nm(f.spelling), field_type=f.ty.ast)


def struct_(n, fields):
    c = N(2, ["struct", Name(n), "{"] + [x for f in fields for x in (f, ";")] + ["}"], None, spelling=Name(n))
    c.exp = ("structs", ast("Struct", "Struct", name=nm(Name(n)), fields=seqv([fexp(f) for f in fields])))
    return c


def anon_typedef(n, fields):
    t, d = anon_alias(n, fields, True)
    c = N(20, ["typedef", d, n], None, spelling=n, under=t.canon)
    c.exp = ("structs", ast("Struct", "Struct", name=S(n), fields=seqv([fexp(f) for f in fields])))
    return c


def typedef_(n, ty):
    c = N(20, ["typedef", ty.spelling, Name(n)], None, spelling=Name(n), under=ty)
    c.exp = ("typedefs", ast("Typedef", "Typedef", name=nm(Name(n)), underlying_type=ty.ast))
    return c


def enum_(n, vs):
    """vs: (name, value, written?)"""
    ks = [N(7, [Name(x)] + (["=", num(k)] if w else []), None, spelling=Name(x), value=T("sym", k, "i64", None) if isinstance(k, str) else k) for x, k, w in vs]
    c = N(5, ["enum", Name(n) if n else "", "{"] + [y for x in ks for y in (x, ",")] + ["}"], None, spelling=Name(n) if n else "")
    c.exp = ("enums", ast("Enum", "Enum", name=nm(Name(n)) if n else S(""), variants=seqv([ast("EnumVariant", "EnumVariant", name=nm(Name(x)), value=some(v(T("sym", k, "i64", None) if isinstance(k, str) else T("i", k)))) for x, k, w in vs])))
    return c


def global_(n, ty, init=None, storage=1):
    c = N(9, (["static"] if storage == 3 else ["extern"] if storage == 2 else []) + [ty.spelling, Name(n)] + (["=", init] if init is not None else []), None, spelling=Name(n), ty=ty, storage=storage)
    c.exp = ("variables", ast("Variable", "Variable", name=nm(Name(n)), var_type=ty.ast, initializer=opt(init.exp if init is not None else None), is_static=B(storage == 3), is_extern=B(storage == 2), is_const=B(ty.const)))
    return c


def ilist(ty, xs):
    """A braced initializer."""
    return N(119, ["{"] + [y for i, x in enumerate(xs) for y in ([","] if i else []) + [x]] + ["}"], ex("CompoundLiteral", literal_type=ty.ast, initializers=seq([x.exp for x in xs])), ty=ty)


def forward(n):
    c = N(2, ["struct", Name(n)], None, spelling=Name(n))
    c.exp = ("structs", ast("Struct", "Struct", name=nm(Name(n)), fields=seqv([])))
    return c


def unnamed(ty):
    return N(10, [*ty.spelling.split()], None, spelling="", ty=ty)


def fn_(n, rty, params, body=None, attrs=()):
    c = func(n, rty, params, body, attrs)
    c.exp = ("functions", c.exp)
    return c


def upd(t, **f):
    return T("adt", t.a[0], t.a[1], tuple((k, v(f[k]) if k in f else x) for k, x in t.a[2]))


def cuda(n, kinds, q):
    c = fn_(n, VOID, [param("pa", INT)], block(calls("e1")), [N(k, [], None) for k in kinds])
    c.exp = ("functions", upd(c.exp[1], cuda_qualifier=some(v(ast("CudaQualifier", q))) if q else NONE))
    return c


def method(n, rty, params, body, concrete=False, **flags):
    f = func(n, rty, params, body)
    nme = n if concrete else Name(n)
    m = N(21, [], None, spelling=nme, ty=f.ty, args=f.attr["args"], **{k: x for k, x in flags.items() if k != "op"})
    m.parts = f.parts       # the text of the member
    m.children = list(f.children)
    o = flags.get("op")
    m.exp = ast("Method", "Method", function=upd(f.exp, name=nm(nme)), access=ast("AccessSpecifier", "Public"), is_const=B(bool(flags.get("is_const"))), is_static=B(bool(flags.get("is_static"))),
                is_virtual=B(bool(flags.get("is_virtual"))), operator_kind=some(v(ast("CxxOperatorKind", o))) if o else NONE)
    return m


def pexp(p, plain=False):
    return ast("Parameter", "Parameter", name=nm(p.spelling), param_type=p.ty.ast, is_pointee_const=B(False if plain else bool(p.ty.pointee and p.ty.pointee.const)))


def class_(n, members, base=None):
    b = [N(44, base[0].split(), None, spelling=base[0])] if base else []
    c = N(4, ["class", Name(n)] + ([":"] + b if b else []) + ["{"] + list(members) + ["}"], None, spelling=Name(n))
    ctor = [m for m in members if m.kind == 24]
    exp = ast("Class", "Class", name=nm(Name(n)), fields=seqv([fexp(m) for m in members if m.kind == 6]), methods=seqv([m.exp for m in members if m.kind == 21]),
              constructor_params=seqv([pexp(p, True) for p in ctor[0].attr["args"]] if ctor else []), has_destructor=B(any(m.kind == 25 for m in members)), base_class=some(v(S(base[1]))) if base else NONE)
    c.exp = ("classes", exp)
    return c


def ctor(params):
    return N(24, [], None, spelling=Name("cl"), args=list(params), children=list(params))


def dtor():
    return N(25, [], None, spelling=Name("cl"))


def namespace(n, members):
    c = N(22, ["namespace", Name(n), "{"] + list(members) + ["}"], None, spelling=Name(n))
    k = lambda f: seqv([m.exp[1] for m in members if m.exp[0] == f])
    c.exp = ("namespaces", ast("Namespace", "Namespace", name=nm(Name(n)), functions=k("functions"), structs=k("structs"), classes=k("classes"), namespaces=k("namespaces")))
    return c


def linkage(members):
    c = N(23, ["extern", '"C"', "{"] + list(members) + ["}"], None)
    c.exp = None
    return c


PARTS = ("functions", "typedefs", "structs", "macros", "variables", "enums", "classes", "namespaces")


def expected(ds):
    out = {p: [] for p in PARTS}

    def add(d):
        if d.exp is None:
            for k in d.children:
                add(k)
        else:
            out[d.exp[0]].append(d.exp[1])
    for d in ds:
        add(d)
    fields = lambda x: dict(x.a[2])["fields"]
    ss = []
    for x in out["structs"]:
        i = [j for j, y in enumerate(ss) if dict(y.a[2])["name"] == dict(x.a[2])["name"]]
        if not i:
            ss.append(x)
        elif fields(ss[i[0]]) == seqv([]):      # the definition completes a declaration
            ss[i[0]] = x
    out["structs"] = ss
    out["enums"] = list(dict.fromkeys(out["enums"]))
    return out
