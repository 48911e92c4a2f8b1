"""Described C programs: trees of libclang cursors with the tokens of their extents and their types, and the syntax tree
the front end is expected to produce for them. Identifiers are symbolic: a result holds for every choice of names."""
import re

from absint import *
import clang
import models
from models import setref, deref, one

AST = "decy_parser::ast_types::"
KW = set("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool".split())


class Ty:
    """A C type as libclang describes it, and the type expected in the syntax tree."""
    n = 0

    def __init__(self, kind, ast, spelling="", pointee=None, elem=None, size=None, decl=None, canon=None, result=None, args=None, const=False):
        Ty.n += 1
        self.kind, self.ast, self.spelling, self.pointee, self.elem, self.size = kind, ast, spelling, pointee, elem, size
        self.decl, self.canon, self.result, self.args, self.const = decl, canon, result, args, const
        self.h = T("cty", Ty.n)
        self.t = T("adt", "clang_sys::CXType", "CXType", (("kind", v(T("i", kind))), ("data", v(self.h))))


def ast(en, var, **f):
    return T("adt", AST + en, var, tuple((k.lstrip("_"), x if isinstance(x, frozenset) else v(x)) for k, x in f.items()))


def aty(var, *a, **f):
    return T("adt", AST + "Type", var, tuple((str(i), v(x)) for i, x in enumerate(a)) + tuple((k, v(x)) for k, x in f.items()))


VOID, BOOL = Ty(2, aty("Void"), "void"), Ty(3, aty("Bool"), "_Bool")
INT, UINT, CHAR, SCHAR, UCHAR = Ty(17, aty("Int"), "int"), Ty(9, aty("UnsignedInt"), "unsigned int"), Ty(13, aty("Char"), "char"), Ty(14, aty("SignedChar"), "signed char"), Ty(5, aty("Char"), "unsigned char")
FLOAT, DOUBLE = Ty(21, aty("Float"), "float"), Ty(22, aty("Double"), "double")


def ptr(t):
    return Ty(101, aty("Pointer", t.ast), t.spelling + " *", pointee=t)


def array(t, n):
    return Ty(112, T("adt", AST + "Type", "Array", (("element_type", v(t.ast)), ("size", v(some(v(T("i", n))))))), f"{t.spelling}[{n}]", elem=t, size=n)


class Name(str):
    """A symbolic identifier."""


def nm(x):
    return T("sym", x, "name", None) if isinstance(x, Name) else S(x)


class Tok:
    def __init__(self, s):
        self.s = s
        self.kind = clang.IDENT if isinstance(s, Name) else clang.KEYWORD if s in KW else clang.LITERAL if re.match(r"""[0-9"']|\.[0-9]|L["']""", s) else clang.IDENT if re.match(r"[A-Za-z_]", s) else clang.PUNCT


class N:
    """A cursor. parts: tokens (str / Name) and child cursors in source order; exp: expected syntax tree value."""
    n = 0

    def __init__(self, kind, parts, exp=None, spelling="", ty=None, children=None, **attr):
        N.n += 1
        self.name = f"c{N.n}"
        self.kind, self.exp, self.spelling, self.ty, self.attr = kind, exp, spelling, ty, attr
        self.parts = [p if isinstance(p, N) else Tok(p) for p in parts]
        self.children = children if children is not None else [p for p in self.parts if isinstance(p, N)]
        self.t = T("cur", self.name)
        self.lo = self.hi = None

    def layout(self, toks):
        self.lo = len(toks)
        for p in self.parts:
            if isinstance(p, N):
                p.layout(toks)
            else:
                toks.append(p)
        self.hi = len(toks)

    def text(self):
        return " ".join(p.text() if isinstance(p, N) else p.s for p in self.parts)


class Env(clang.Env):
    """libclang over a described translation unit."""

    def __init__(self, root, errors=()):
        self.toks = []
        root.layout(self.toks)
        self.by, self.tys, self.visited, self.extract, self.extra = {}, {}, [], None, None
        self.errors = errors
        self.root = root
        self.parent = {}

        def ty(t):
            if t is None or t.h in self.tys:
                return
            self.tys[t.h] = t
            for k in (t.pointee, t.elem, t.canon, t.result):
                ty(k)
            for k in t.args or ():
                ty(k)
            if t.decl is not None:
                reg(t.decl)

        def reg(c, parent=None):
            if c.t in self.by:
                return
            self.by[c.t] = c
            self.parent[c.t] = parent
            ty(c.ty)
            for a in c.attr.values():
                if isinstance(a, Ty):
                    ty(a)
            for k in c.children:
                reg(k, c)
            for k in c.attr.get("args", ()):
                reg(k, c)
        reg(root)
        self.tokt = [T("tok", i, k.kind, nm(k.s)) for i, k in enumerate(self.toks)]

    def spell(self, I, V):
        out = set()
        for t in V:
            if t.k == "cxs":
                x = t.a[0]
                if x.k == "tok":
                    out.add(x.a[2])
                    continue
                if x.k == "cty":
                    out.add(S(self.tys[x].spelling))
                    continue
                c = self.by.get(x)
                if c is not None:
                    out.add(nm(c.spelling))
                    continue
                if x.k == "str":
                    out.add(x)
                    continue
                out.add(T("spelling", x))
            else:
                out.add(T("spelling", t))
        return frozenset(out)

    def tyof(self, V):
        t = one(V)
        if t is None or t.k != "adt" or t.a[0] != "clang_sys::CXType":
            return None
        h = one(dict(t.a[2]).get("data", frozenset()))
        return self.tys.get(h)

    # tokens and ranges
    def rng(self, t):
        if t is None:
            return None
        if t.k == "ext":
            c = self.by.get(t.a[0])
            return (c.lo, c.hi) if c is not None and c.lo is not None else None
        if t.k == "rng":
            a, b = t.a
            p = self.rng(a.a[0]) if a.k in ("rs", "re") else None
            q = self.rng(b.a[0]) if b.k in ("rs", "re") else None
            if p is None or q is None:
                return None
            return (p[0] if a.k == "rs" else p[1], q[0] if b.k == "rs" else q[1])
        return None

    def clang_tokenize(self, I, st, a, site):
        r = self.rng(one(a[1]))
        if r is None:
            return None
        toks = tuple(self.tokt[r[0]:max(r)])
        setref(I, st, a[2], v(T("toks", toks)))
        setref(I, st, a[3], v(T("i", len(toks))))
        return v(UNIT)

    # cursors
    def clang_getCursorType(self, I, st, a, site):
        c = self.cur(a[0])
        if c is None:
            return None
        if c.ty is None:
            return v(T("adt", "clang_sys::CXType", "CXType", (("kind", v(T("i", 0))), ("data", v(T("nul"))))))
        return v(c.ty.t)

    def clang_Cursor_getNumArguments(self, I, st, a, site):
        c = self.cur(a[0])
        return v(T("i", len(c.attr.get("args", ())) if "args" in c.attr else -1)) if c is not None else None

    def clang_Cursor_getArgument(self, I, st, a, site):
        c, i = self.cur(a[0]), one(a[1])
        return v(c.attr["args"][i.a[0]].t) if c is not None and i is not None and i.k == "i" and 0 <= i.a[0] < len(c.attr.get("args", ())) else None

    def clang_getCursorSemanticParent(self, I, st, a, site):
        c = self.cur(a[0])
        p = c.attr.get("sem") if c is not None else None
        if c is not None and p is None:
            p = self.parent.get(c.t)
            while p is not None and p.kind not in (8, 2, 4, 21, 22, 31, 350, 300):
                p = self.parent.get(p.t)
        return v(p.t) if p is not None else None

    def clang_Cursor_getStorageClass(self, I, st, a, site):
        c = self.cur(a[0])
        return v(T("i", c.attr.get("storage", 1))) if c is not None else None

    def clang_getEnumConstantDeclValue(self, I, st, a, site):
        c = self.cur(a[0])
        x = c.attr.get("value") if c is not None else None
        return v(T("i", x) if isinstance(x, int) else x) if x is not None else None

    def clang_Cursor_isMacroFunctionLike(self, I, st, a, site):
        c = self.cur(a[0])
        return v(T("i", int(c.attr.get("fnlike", False)))) if c is not None else None

    def clang_CXXMethod_isStatic(self, I, st, a, site):
        return self.flag(a, "is_static")

    def clang_CXXMethod_isConst(self, I, st, a, site):
        return self.flag(a, "is_const")

    def clang_CXXMethod_isVirtual(self, I, st, a, site):
        return self.flag(a, "is_virtual")

    def clang_getCXXAccessSpecifier(self, I, st, a, site):
        return self.flag(a, "access")

    def flag(self, a, n):
        c = self.cur(a[0])
        return v(T("i", int(c.attr.get(n, 0)))) if c is not None else None

    def clang_Cursor_Evaluate(self, I, st, a, site):
        c = self.cur(a[0])
        if c is None:
            return None
        x = c.attr.get("eval")
        return v(T("ev", x if isinstance(x, int) else 0, c.name)) if x is not None else v(T("nul"))

    def clang_EvalResult_getKind(self, I, st, a, site):
        return v(T("i", 1))

    def clang_EvalResult_getAsInt(self, I, st, a, site):
        t = one(a[0])
        return v(T("i", t.a[0])) if t is not None and t.k == "ev" else None

    clang_EvalResult_getAsLongLong = clang_EvalResult_getAsInt

    def clang_EvalResult_dispose(self, I, st, a, site):
        return v(UNIT)

    def clang_getCursorLocation(self, I, st, a, site):
        return v(T("loc", one(a[0]) or TOP))

    def clang_getFileName(self, I, st, a, site):
        return v(T("cxs", S("input.c")))

    def clang_getTypedefDeclUnderlyingType(self, I, st, a, site):
        c = self.cur(a[0])
        return v(c.attr["under"].t) if c is not None and "under" in c.attr else None

    def clang_getTokenLocation(self, I, st, a, site):
        return v(T("tokloc", one(a[1]) or TOP))

    # types
    def get(self, a, f):
        t = self.tyof(a[0])
        x = getattr(t, f) if t is not None else None
        return v(x.t) if x is not None else None

    def clang_getPointeeType(self, I, st, a, site):
        return self.get(a, "pointee")

    def clang_getArrayElementType(self, I, st, a, site):
        return self.get(a, "elem")

    def clang_getResultType(self, I, st, a, site):
        return self.get(a, "result")

    def clang_getTypeDeclaration(self, I, st, a, site):
        return self.get(a, "decl")

    def clang_getCanonicalType(self, I, st, a, site):
        t = self.tyof(a[0])
        return v((t.canon or t).t) if t is not None else None

    def clang_getArraySize(self, I, st, a, site):
        t = self.tyof(a[0])
        return v(T("i", t.size if isinstance(t.size, int) else -1)) if t is not None else None

    def clang_getNumArgTypes(self, I, st, a, site):
        t = self.tyof(a[0])
        return v(T("i", len(t.args) if t.args is not None else -1)) if t is not None else None

    def clang_getArgType(self, I, st, a, site):
        t, i = self.tyof(a[0]), one(a[1])
        return v(t.args[i.a[0]].t) if t is not None and i is not None and i.k == "i" and t.args and 0 <= i.a[0] < len(t.args) else None

    def clang_isConstQualifiedType(self, I, st, a, site):
        t = self.tyof(a[0])
        return v(T("i", int(t.const))) if t is not None else None

    def clang_getTypeSpelling(self, I, st, a, site):
        t = self.tyof(a[0])
        return v(T("cxs", t.h)) if t is not None else None

    # translation unit
    def clang_parseTranslationUnit2(self, I, st, a, site):
        setref(I, st, a[7], v(T("tu")))
        return v(T("i", 0))

    def clang_getTranslationUnitCursor(self, I, st, a, site):
        return v(self.root.t)

    def clang_disposeTranslationUnit(self, I, st, a, site):
        return v(UNIT)

    def clang_getNumDiagnostics(self, I, st, a, site):
        return v(T("i", len(self.errors)))

    def __call__(self, I, st, name, rec, args, site):
        n = short(name)
        if n == "as_ptr" and args and ("CStr" in name or "Vec" in name):
            return [(st, deref(I, st, args[0]))]
        if n == "new" and "CString" in name and len(args) == 1:     # the described source contains no NUL
            return [(st, v(ok(args[0])))]
        if n == "is_null" and args:
            t = one(deref(I, st, args[0]))
            if t is not None and t.k in ("ev", "nul"):
                return [(st, v(B(t.k == "nul")))]
        return clang.Env.__call__(self, I, st, name, rec, args, site)


# ---------- expressions (each returns a cursor whose .exp is the expected expression)
def ex(var, **f):
    return ast("Expression", var, **f)


def var(n, ty=None):
    n = Name(n)
    return N(101, [n], ex("Variable", _0=nm(n)), spelling=n, ty=ty or INT)


def lv(e, ty=None):
    """Implicit lvalue-to-rvalue conversion, as clang wraps around a variable read."""
    return N(100, [e], e.exp, spelling=e.spelling, ty=ty or e.ty)


def num(k):
    return N(106, [str(k)], ex("IntLiteral", _0=T("i", k)), ty=INT, eval=k)


def paren(e):
    return N(111, ["(", e, ")"], e.exp, ty=e.ty)


BINS = {"+": "Add", "-": "Subtract", "*": "Multiply", "/": "Divide", "%": "Modulo", "==": "Equal", "!=": "NotEqual", "<": "LessThan", ">": "GreaterThan",
        "<=": "LessEqual", ">=": "GreaterEqual", "&&": "LogicalAnd", "||": "LogicalOr", "<<": "LeftShift", ">>": "RightShift", "&": "BitwiseAnd", "|": "BitwiseOr",
        "^": "BitwiseXor", "=": "Assign", ",": "Comma"}


def bop(n):
    return T("adt", AST + "BinaryOperator", n, ())


def binary(o, a, b, ty=None):
    return N(114, [a, o, b], ex("BinaryOp", op=bop(BINS[o]), left=a.exp, right=b.exp), ty=ty or INT)


def unary(o, a, ty=None):
    n = {"-": "Minus", "!": "LogicalNot", "~": "BitwiseNot", "&": "AddressOf"}[o]
    return N(112, [o, a], ex("UnaryOp", op=T("adt", AST + "UnaryOperator", n, ()), operand=a.exp), ty=ty or INT)


def deref_(a, ty=None):
    return N(112, ["*", a], ex("Dereference", _0=a.exp), ty=ty or INT)


def incdec(o, a, pre):
    n = ("Pre" if pre else "Post") + {"++": "Increment", "--": "Decrement"}[o]
    return N(112, [o, a] if pre else [a, o], ex(n, operand=a.exp), ty=INT)


def elem(a, i):
    return N(113, [a, "[", i, "]"], ex("ArrayIndex", array=a.exp, index=i.exp), ty=INT)


def member(a, f, arrow):
    f = Name(f)
    e = ex("PointerFieldAccess", pointer=a.exp, field=nm(f)) if arrow else ex("FieldAccess", object=a.exp, field=nm(f))
    return N(102, [a, "->" if arrow else ".", f], e, spelling=f, ty=INT)


def call(f, *args, ty=None):
    f = Name(f)
    callee = N(100, [N(101, [f], None, spelling=f)], None, spelling=f)
    parts = [callee, "("]
    for i, a in enumerate(args):
        parts += ([","] if i else []) + [a]
    return N(103, parts + [")"], ex("FunctionCall", function=nm(f), arguments=SEQ(tuple(("e", v(a.exp)) for a in args))), spelling=f, ty=ty or INT, args=list(args))


def cast(ty, e):
    return N(117, ["(", *ty.spelling.split(), ")", e], ex("Cast", target_type=ty.ast, expr=e.exp), ty=ty)


def cond(a, b, c):
    return N(116, [a, "?", b, ":", c], ex("Ternary", condition=a.exp, then_expr=b.exp, else_expr=c.exp), ty=INT)


def sizeof(ty):
    return N(136, ["sizeof", "(", *ty.spelling.split(), ")"], ex("Sizeof", type_name=S(ty.spelling)), ty=UINT)


def string(s):
    return N(100, [N(109, ['"' + s + '"'], None, ty=array(CHAR, 3), spelling='"' + s + '"')], ex("StringLiteral", _0=S(s)), ty=ptr(CHAR))


def flit(s):
    return N(107, [s], ex("FloatLiteral", _0=S(s)), ty=DOUBLE, eval=0)


def clit(ch):
    return N(110, ["'" + ch + "'"], ex("CharLiteral", _0=T("i", ord(ch))), ty=INT, eval=ord(ch))


# ---------- statements (.exp: list of expected statements)
def stm(var, **f):
    return ast("Statement", var, **f)


def seq(xs):
    return SEQ(tuple(("e", v(x)) for x in xs))


def opt(x):
    return NONE if x is None else some(v(x))


def decl(n, ty, init=None):
    n = Name(n)
    d = N(9, [*ty.spelling.split(), n] + (["=", init] if init is not None else []), None, spelling=n, ty=ty)
    return N(231, [d, ";"], [stm("VariableDeclaration", name=nm(n), var_type=ty.ast, initializer=opt(init.exp if init is not None else None))])


def ret(e=None):
    return N(214, ["return"] + ([e] if e is not None else []), [stm("Return", _0=opt(e.exp if e is not None else None))])


def assign(l, r):
    x = one(v(l.exp))
    k, f = x.a[1], dict(x.a[2])
    if k == "Variable":
        s = stm("Assignment", target=f["0"], value=r.exp)
    elif k == "Dereference":
        s = stm("DerefAssignment", target=f["0"], value=r.exp)
    elif k == "ArrayIndex":
        s = stm("ArrayIndexAssignment", array=f["array"], index=f["index"], value=r.exp)
    else:
        s = stm("FieldAssignment", object=f.get("object") or f.get("pointer"), field=f["field"], value=r.exp)
    return N(114, [l, "=", r], [s], ty=INT)


def compound(l, o, r):
    x = one(v(l.exp))
    if x.a[1] == "Variable":
        s = stm("CompoundAssignment", target=dict(x.a[2])["0"], op=bop(BINS[o]), value=r.exp)
    else:
        s = stm("DerefCompoundAssignment", target=dict(x.a[2])["0"] if x.a[1] == "Dereference" else l.exp, op=bop(BINS[o]), value=r.exp)
    return N(115, [l, o + "=", r], [s], ty=INT)


def incs(o, l, pre):
    e = incdec(o, l, pre)
    x = one(v(l.exp))
    if x.a[1] == "Variable":
        s = stm(("Pre" if pre else "Post") + {"++": "Increment", "--": "Decrement"}[o], target=dict(x.a[2])["0"])
    else:
        s = stm("DerefCompoundAssignment", target=dict(x.a[2])["0"] if x.a[1] == "Dereference" else l.exp, op=bop({"++": "Add", "--": "Subtract"}[o]), value=ex("IntLiteral", _0=T("i", 1)))
    return N(112, e.parts and [p if isinstance(p, N) else p.s for p in e.parts], [s], ty=INT)


def calls(f, *args):
    c = call(f, *args)
    d = dict(one(v(c.exp)).a[2])
    c.exp = [stm("FunctionCall", function=d["function"], arguments=d["arguments"])]
    return c


def flat(ss):
    return [x for s in ss for x in s.exp]


def block(*ss):
    parts = ["{"]
    for s in ss:
        parts += [s] + ([";"] if s.kind not in (202, 205, 207, 209, 206, 231) else [])
    return N(202, parts + ["}"], flat(ss))


def if_(c, t, e=None):
    parts = ["if", "(", c, ")", t] + ([";"] if t.kind not in (202, 205, 207, 209, 206) else []) + (["else", e] if e is not None else [])
    return N(205, parts, [stm("If", condition=c.exp, then_block=seq(t.exp), else_block=opt(seq(e.exp) if e is not None else None))])


def while_(c, b):
    return N(207, ["while", "(", c, ")", b], [stm("While", condition=c.exp, body=seq(b.exp))])


def dowhile(b, c, want):
    return N(208, ["do", b, "while", "(", c, ")"], want)


def for_(i, c, n, b):
    parts = ["for", "("]
    parts += ([i] if i is not None else []) + ([";"] if i is None or i.kind != 231 else [])
    parts += ([c] if c is not None else []) + [";"] + ([n] if n is not None else []) + [")", b]
    return N(209, parts, [stm("For", init=seq(i.exp if i is not None else []), condition=opt(c.exp if c is not None else None), increment=seq(n.exp if n is not None else []), body=seq(b.exp))])


def comma(a, b):
    """Two expression statements joined by a comma."""
    return N(114, [a, ",", b], a.exp + b.exp, ty=INT)


BREAK = lambda: N(213, ["break"], [stm("Break")])
CONTINUE = lambda: N(212, ["continue"], [stm("Continue")])


def param(n, ty):
    n = Name(n)
    return N(10, [*ty.spelling.split(), n], None, spelling=n, ty=ty)


def func(n, rty, params, body, attrs=()):
    n = Name(n)
    parts = [*rty.spelling.split(), n, "("]
    for i, p in enumerate(params):
        parts += ([","] if i else []) + [p]
    parts += [")"] + ([body] if body is not None else [";"])
    fty = Ty(111, None, "fn", result=rty, args=[p.ty for p in params])
    exp = ast("Function", "Function", name=nm(n), return_type=rty.ast,
              parameters=seq([ast("Parameter", "Parameter", name=nm(p.spelling), param_type=p.ty.ast, is_pointee_const=B(bool(p.ty.pointee and p.ty.pointee.const))) for p in params]),
              body=seq(body.exp if body is not None else []), cuda_qualifier=NONE)
    c = N(8, parts, exp, spelling=n, ty=fty, args=list(params))
    c.children = list(attrs) + c.children
    return c


def unit(*ds):
    return N(350, list(ds))


def parse(c, root, source="int x;", unroll=120):
    """Abstract result of parsing the described translation unit through the public entry point."""
    env = Env(root)
    I = c.interp(on_call=env, unroll=unroll, maxdepth=60)
    I.recurse = 8
    b = c.P.fn("CParser::parse")
    out = frozenset()
    for _, V in I.run(b, [v(T("sym", "parser", "decy_parser::parser::CParser", None)), v(S(source))]):
        out |= V
    c.done(I)
    return out


def tree(V):
    """The syntax tree inside Ok(..) when there is exactly one."""
    t = one(V)
    if t is None or t.k != "adt" or t.a[1] != "Ok":
        return None
    return one(t.a[2][0][1])


def field(t, *path):
    for p in path:
        if t is None or t.k != "adt":
            return None
        t = one(dict(t.a[2]).get(p, frozenset()))
    return t
