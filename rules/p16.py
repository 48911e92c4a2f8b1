"""P16: the passes between lowering and code generation keep the meaning of a function body: constants fold to C's
value, only branches that are never taken disappear, a removed temporary takes no conversion or binding with it."""
import itertools
from absint import *
from absint import S as STRING
import cg
import ctx
import flow
import hir
import p03
from p04 import elems, optv

LEVEL = "other"
ASSUMPTIONS = ["int has 32 bits, two's complement, and >> of a negative value is arithmetic"]
HE, HS, HT, BO, UO = cg.HE, cg.HS, cg.HT, cg.BO, cg.UO
STR = "alloc::string::String"
M = 1 << 32


# ---- building
class B:
    P = None


def X(n, **f):
    return hir.inst(B.P, HE, n, "", **{k: f[k] if isinstance(f[k], frozenset) else v(f[k]) for k in f})


def S(n, **f):
    return hir.inst(B.P, HS, n, "", **{k: f[k] if isinstance(f[k], frozenset) else v(f[k]) for k in f})


def name(n):
    return v(STRING(n))


def var(n):
    return X("Variable", **{"0": name(n)})


def num(n):
    return X("IntLiteral", **{"0": T("i", n)})


def bin_(o, a, b):
    return X("BinaryOp", op=v(cg.op(BO, o)), left=a, right=b)


def un(o, a):
    return X("UnaryOp", op=v(cg.op(UO, o)), operand=a)


def seq(*xs):
    return v(SEQ(tuple(("e", v(x)) for x in xs)))


def ev(n):
    return S("Expression", **{"0": X("FunctionCall", function=name("e_" + n), arguments=seq())})


def ty(n):
    return T("adt", HT, n, ())


def decl(n, t, init=None):
    return S("VariableDeclaration", name=name(n), var_type=v(t), initializer=v(some(v(init))) if init is not None else v(NONE))


def ret(e=None):
    return S("Return", **{"0": v(some(v(e))) if e is not None else v(NONE)})


def if_(c, a, b=None):
    return S("If", condition=c, then_block=seq(*a), else_block=v(some(seq(*b))) if b is not None else v(NONE))


def while_(c, a):
    return S("While", condition=c, body=seq(*a))


def for_(i, c, n, a):
    return S("For", init=seq(*i), condition=v(some(v(c))) if c is not None else v(NONE), increment=seq(*n), body=seq(*a))


def switch(c, cases, d):
    cs = [T("adt", "decy_hir::SwitchCase", "SwitchCase", (("value", v(some(v(l)))), ("body", seq(*b)))) for l, b in cases]
    return S("Switch", condition=c, cases=seq(*cs), default_case=v(some(seq(*d))) if d is not None else v(NONE))


# ---- meaning
def only(V):
    if isinstance(V, Term):
        return V
    if len(V) != 1:
        raise Unclear("several values")
    return next(iter(V))


class Unclear(Exception):
    pass


def c_bin(o, a, b):
    """Value of a C int operation on constants, or None where C leaves it undefined."""
    q = lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    r = {"Add": lambda: a + b, "Subtract": lambda: a - b, "Multiply": lambda: a * b, "Divide": lambda: q() if b else None, "Modulo": lambda: a - q() * b if b else None,
         "LeftShift": lambda: ((a << b) + M // 2) % M - M // 2 if 0 <= b < 32 else None, "RightShift": lambda: a >> b if 0 <= b < 32 else None,
         "BitwiseAnd": lambda: a & b, "BitwiseOr": lambda: a | b, "BitwiseXor": lambda: a ^ b, "Equal": lambda: int(a == b), "NotEqual": lambda: int(a != b), "LessThan": lambda: int(a < b),
         "GreaterThan": lambda: int(a > b), "LessEqual": lambda: int(a <= b), "GreaterEqual": lambda: int(a >= b), "LogicalAnd": lambda: int(bool(a) and bool(b)), "LogicalOr": lambda: int(bool(a) or bool(b)),
         "Comma": lambda: b}.get(o, lambda: None)()
    return r if r is not None and -M // 2 <= r < M // 2 else None


def c_un(o, a):
    r = {"Minus": lambda: -a, "BitwiseNot": lambda: ~a, "LogicalNot": lambda: int(not a)}.get(o, lambda: None)()
    return r if r is not None and -M // 2 <= r < M // 2 else None


def number(x):
    """Value of a constant i32 term."""
    if x.k == "i":
        return x.a[0]
    if x.k == "bin" and len(x.a) == 3:
        a, b = (number(only(y)) if not isinstance(y, Term) else number(y) for y in x.a[1:])
        if a is not None and b is not None:
            o = {"Add": "Add", "Sub": "Subtract", "Mul": "Multiply", "Div": "Divide", "Rem": "Modulo", "Shl": "LeftShift", "Shr": "RightShift", "BitAnd": "BitwiseAnd", "BitOr": "BitwiseOr", "BitXor": "BitwiseXor"}.get(x.a[0])
            return c_bin(o, a, b)
    return None


def meaning(V, env):
    """A hashable form of an expression: constants evaluated as C does, variables resolved to their declarations."""
    t = only(V)
    if t.k == "seq":
        return ("seq",) + tuple(meaning(x, env) if k == "e" else rest(x) for k, x in t.a[0])
    if t.k != "adt":
        return repr(t)
    n, f = t.a[1], dict(t.a[2])
    if t.a[0] == HE:
        if n == "IntLiteral":
            n = number(only(f["0"]))
            return ("int", n if n is not None else repr(only(f["0"])))
        if n == "Variable":
            k = repr(only(f["0"]))
            return ("var", k, env.get(k, 0))
        if n == "BinaryOp":
            o = only(f["op"]).a[1]
            a, b = meaning(f["left"], env), meaning(f["right"], env)
            if a[0] == b[0] == "int" and isinstance(a[1], int) and isinstance(b[1], int):
                r = c_bin(o, a[1], b[1])
                if r is not None:
                    return ("int", r)
                return ("undefined", o, a, b)
            return (n, o, a, b)
        if n == "UnaryOp":
            o = only(f["op"]).a[1]
            a = meaning(f["operand"], env)
            if a[0] == "int" and isinstance(a[1], int) and c_un(o, a[1]) is not None:
                return ("int", c_un(o, a[1]))
            if a[0] == "int" and isinstance(a[1], int):
                return ("undefined", o, a)
            return (n, o, a)
    return (n,) + tuple((k, meaning(x, env)) for k, x in sorted(f.items()))


def rest(x):
    raise Unclear("a list of unknown length")


def agrees(a, b):
    """Is b a faithful rendering of a? Where a's value is undefined in C, any value will do."""
    if a == b:
        return True
    if isinstance(a, tuple) and a and a[0] == "undefined":
        return True
    return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(agrees(x, y) for x, y in zip(a, b))


class Flow:
    """Statements as control flow (lib/flow.py); events carry the meaning of the statement."""

    def __init__(self, rt):
        self.rt, self.n = rt, 0

    def block(self, V, env):
        env = dict(env)
        out = []
        ss = [only(x) if k == "e" else rest(x) for k, x in only(V).a[0]]
        i = 0
        while i < len(ss):
            s = ss[i]
            i += 1
            f = dict(s.a[2])
            n = s.a[1]
            if n == "VariableDeclaration":
                init = only(f["initializer"])
                k = repr(only(f["name"]))
                val = meaning(dict(init.a[2])["0"], env) if init.a[1] == "Some" else None
                t = repr(only(f["var_type"]))
                self.n += 1
                env[k] = self.n
                out.append(("ev", ("decl", k, self.n, t, val)))
            else:
                out += self.one(s, env)
        i = len(out) - 2
        while i >= 0:       # `T t = e; return t;` in a function returning T
            a, b = out[i], out[i + 1]
            if a[0] == "ev" and a[1][0] == "decl" and b == ("ret", ("var",) + a[1][1:3]) and a[1][3] == self.rt and a[1][4] is not None:
                out[i:i + 2] = [("ret", a[1][4])]
            i -= 1
        return out

    def one(self, s, env):
        n, f = s.a[1], dict(s.a[2])
        opt = lambda V: dict(only(V).a[2])["0"] if only(V).a[1] == "Some" else None
        if n == "Return":
            x = opt(f["0"])
            return [("ret", meaning(x, env) if x is not None else None)]
        if n == "Break":
            return [("break",)]
        if n == "Continue":
            return [("continue",)]
        if n == "If":
            c = meaning(f["condition"], env)
            eb = opt(f["else_block"])
            a, b = self.block(f["then_block"], env), self.block(eb, env) if eb is not None else []
            if c[0] == "int" and isinstance(c[1], int):
                return a if c[1] else b
            return [("if", c, a, b)]
        if n == "While":
            c = meaning(f["condition"], env)
            a = self.block(f["body"], env)
            if c[0] == "int" and isinstance(c[1], int):
                return [("loop", a)] if c[1] else []
            return [("while", c, a)]
        if n == "For":
            e2 = dict(env)
            i = []
            for k, x in only(f["init"]).a[0]:
                y = only(x)
                if y.a[1] == "VariableDeclaration":
                    g = dict(y.a[2])
                    kk = repr(only(g["name"]))
                    ii = opt(g["initializer"])
                    self.n += 1
                    i.append(("ev", ("decl", kk, self.n, repr(only(g["var_type"])), meaning(ii, e2) if ii is not None else None)))
                    e2[kk] = self.n
                else:
                    i += self.one(y, e2)
            x = opt(f["condition"])
            c = meaning(x, e2) if x is not None else None
            inc = [z for _, y in only(f["increment"]).a[0] for z in self.one(only(y), e2)]
            b = self.block(f["body"], e2)
            if c is not None and c[0] == "int" and isinstance(c[1], int):
                if not c[1]:
                    return i
                c = None
            return [("for", i, c, inc, b)]
        if n == "Switch":
            arms = []
            for _, x in only(f["cases"]).a[0]:
                g = dict(only(x).a[2])
                l = opt(g["value"])
                arms.append(((meaning(l, env),), self.block(g["body"], env)))
            d = opt(f["default_case"])
            if d is not None:
                arms.append((("default",), self.block(d, env)))
            return [("hswitch", meaning(f["condition"], env), arms)]
        if n == "Assignment":
            k = repr(only(f["target"]))
            return [("ev", ("set", k, env.get(k, 0), meaning(f["value"], env)))]
        return [("ev", (n,) + tuple((k, meaning(x, env)) for k, x in sorted(f.items())))]


def same(a, b):
    """flow.differ, where undefined values agree with anything."""
    d = flow.differ(a, b)
    return None if d is not None and "undefined" in repr(a) and agrees(tuple(a), tuple(b)) else d


# ---- cases
VALS = (0, 1, 2, -1, 3, -7, 7, 31, 32, 33, -32, 100, 65536, 2147483647, -2147483648)
BINS = ("Add", "Subtract", "Multiply", "Divide", "Modulo", "LeftShift", "RightShift", "BitwiseAnd", "BitwiseOr", "BitwiseXor", "Equal", "NotEqual", "LessThan", "GreaterThan", "LessEqual", "GreaterEqual", "LogicalAnd", "LogicalOr")
UNS = ("Minus", "LogicalNot", "BitwiseNot")


def forms(hole):
    """Every expression form with `hole()` in each of its positions: (label, expression)."""
    P = B.P
    for x in P.adts[HE]["vars"]:
        fields = x["f"]
        sub = [f for f, t in fields if HE in t]
        for pos in sub or [None]:
            fs, alts = {}, [""]
            for f, t in fields:
                if "Vec<" in t and HE in t:
                    alts = ["first", "last"] if f == pos else alts
            for alt in alts:
                fs = {}
                for f, t in fields:
                    if HE not in t:
                        continue
                    e = hole() if f == pos else var(f"v_{f}")
                    if "Vec<" in t:
                        o = [var(f"v_{f}{i}") for i in range(2)]
                        fs[f] = seq(*((e, *o) if alt == "first" else (*o, e))) if f == pos else seq(*o)
                    else:
                        fs[f] = v(e)
                if x["n"] in ("BinaryOp", "UnaryOp"):
                    for o in BINS if x["n"] == "BinaryOp" else UNS:
                        yield f"{x['n']} {o}.{pos}", X(x["n"], op=v(cg.op(BO if x["n"] == "BinaryOp" else UO, o)), **fs)
                else:
                    yield f"{x['n']}.{pos}{alt}", X(x["n"], **fs)


def bodies():
    """(key, maker of the statements of a body)"""
    for o in BINS:
        for a, b in itertools.product(VALS, VALS):
            yield f"constant:{o}:{a},{b}", lambda o=o, a=a, b=b: [ret(bin_(o, num(a), num(b)))]
    for o in UNS:
        for a in VALS:
            yield f"constant:{o}:{a}", lambda o=o, a=a: [ret(un(o, num(a)))]
    for o, p in itertools.product(("Add", "Subtract", "Divide", "LeftShift", "RightShift", "LogicalAnd"), repeat=2):
        yield f"nested:{o}({p})", lambda o=o, p=p: [ret(bin_(o, bin_(p, num(20), num(3)), num(2)))]
        yield f"nested right:{o}({p})", lambda o=o, p=p: [ret(bin_(o, num(20), bin_(p, num(7), num(3))))]
        yield f"nested variable:{o}({p})", lambda o=o, p=p: [ret(bin_(o, bin_(p, num(20), var("x")), num(2)))]
        yield f"nested variable left:{o}({p})", lambda o=o, p=p: [ret(bin_(o, bin_(p, var("x"), num(20)), num(2)))]
    for o in BINS:
        for k in (0, 1, -1, 2):
            yield f"mixed:x {o} {k}", lambda o=o, k=k: [ret(bin_(o, var("x"), num(k)))]
            yield f"mixed:{k} {o} x", lambda o=o, k=k: [ret(bin_(o, num(k), var("x")))]
            yield f"mixed:call {o} {k}", lambda o=o, k=k: [ret(bin_(o, X("FunctionCall", function=name("g"), arguments=seq()), num(k)))]
            yield f"mixed:{k} {o} call", lambda o=o, k=k: [ret(bin_(o, num(k), X("FunctionCall", function=name("g"), arguments=seq())))]
        yield f"mixed:x {o} x", lambda o=o: [ret(bin_(o, var("x"), var("x")))]
    leaf = {"variable": lambda: var("x"), "folded": lambda: bin_("Add", num(2), num(3)), "negated": lambda: un("Minus", num(7)), "kept": lambda: bin_("Divide", num(2), num(0)), "literal": lambda: num(0)}
    for l, h in leaf.items():
        for k, e in forms(h):
            yield f"form:{k}:{l}", lambda e=e: [S("Expression", **{"0": e}), ret(e)]
    # statement forms with a foldable or constant expression in each position
    for l, h in {**leaf, "true": lambda: num(1), "five": lambda: num(5), "zero sum": lambda: bin_("Subtract", num(1), num(1)), "minus one": lambda: num(-1), "char": lambda: X("CharLiteral", **{"0": T("i", 0)}),
                 "float": lambda: X("FloatLiteral", **{"0": name("fl")}), "null": lambda: X("NullLiteral")}.items():
        for k, s in stmts(h):
            yield f"stmt:{k}:{l}", lambda s=s: [ev("a"), s, ev("b")]
            yield f"stmt:{k}:{l}:nested", lambda s=s: [ev("a"), if_(var("c"), [ev("d"), s, ev("f")], [s, ev("g")]), while_(var("w"), [ev("h"), s]), ev("b")]
            yield f"stmt:{k}:{l}:in for", lambda s=s: [for_([ev("i")], var("c"), [ev("n")], [s, ev("d")]), switch(var("s"), [(num(1), [s, ev("g"), S("Break")])], [s, ev("h")]), ev("b")]
    one, zero, five = (lambda: num(1)), (lambda: num(0)), (lambda: num(5))
    for cl, k in (("1", one), ("0", zero), ("5", five), ("1-1", lambda: bin_("Subtract", num(1), num(1))), ("-3", lambda: un("Minus", num(3))), ("2*0", lambda: bin_("Multiply", num(2), num(0))), ("x", lambda: var("x"))):
        for el, eb in (("no else", None), ("else", [ev("n1"), ev("n2")]), ("empty else", []), ("else return", [ret(var("y"))])):
            for tl, tb in (("two", [ev("t1"), ev("t2")]), ("empty", []), ("return", [ret(var("z"))]), ("jump", None)):
                for wl, w in (("plain", lambda s: [ev("a"), s, ev("b")]), ("while", lambda s: [while_(var("w"), [ev("a"), s, ev("b")])]), ("else", lambda s: [if_(var("o"), [ev("p")], [s, ev("q")])]),
                              ("in live", lambda s: [if_(num(1), [ev("p"), s, ev("q")]), ev("z")]), ("in dead", lambda s: [if_(num(0), [ev("p"), s], [s, ev("r")]), ev("z")])):
                    if tb is None and wl != "while":
                        continue
                    t2 = tb if tb is not None else [ev("t1"), S("Break")]
                    yield f"dead:{cl}:{el}:{tl}:{wl}", lambda k=k, eb=eb, t2=t2, w=w: w(if_(k(), t2, eb))
            yield f"for parts:{cl}:{el}", lambda k=k, eb=eb: [for_([ev("i1"), ev("i2")], k(), [ev("n1"), ev("n2"), ev("n3")], [ev("t"), if_(var("j"), [S("Break")], eb), ev("u")]), ev("b")]
            yield f"dead:else if:{cl}:{el}", lambda k=k, eb=eb: [if_(var("c"), [ev("t")], [if_(k(), [ev("u")], eb)]), ev("b")]
        yield f"dead:while:{cl}", lambda k=k: [ev("a"), while_(k(), [ev("t"), if_(var("j"), [S("Break")]), ev("u")]), ev("b")]
        yield f"dead:while continue:{cl}", lambda k=k: [ev("a"), while_(k(), [ev("t"), if_(var("j"), [S("Continue")]), ev("u"), if_(num(1), [S("Break")])]), ev("b")]
        yield f"dead:for:{cl}", lambda k=k: [ev("a"), for_([ev("i")], k(), [ev("n")], [ev("t"), if_(var("j"), [S("Break")])]), ev("b")]
        yield f"dead:switch:{cl}", lambda k=k: [ev("a"), switch(k(), [(num(0), [ev("z")]), (num(1), [ev("o"), S("Break")])], [ev("d")]), ev("b")]
        # a block that is kept is still a scope of its own
        yield f"scope:{cl}", lambda k=k: [decl("x", ty("Int"), var("p")), if_(k(), [decl("x", ty("Int"), var("q")), S("Expression", **{"0": X("FunctionCall", function=name("g"), arguments=seq(var("x")))})]), ret(bin_("Add", var("x"), num(1)))]
        yield f"scope else:{cl}", lambda k=k: [decl("x", ty("Int"), var("p")), if_(k(), [ev("a")], [decl("x", ty("Int"), var("q")), S("Assignment", target=name("x"), value=v(var("r")))]), ret(bin_("Add", var("x"), num(1)))]
    # temporaries
    for tl, t in (("same type", "Int"), ("narrower", "Char"), ("float", "Double"), ("unsigned", "UnsignedInt")):
        for il, init in (("variable", lambda: var("p")), ("sum", lambda: bin_("Add", var("p"), var("q"))), ("call", lambda: X("FunctionCall", function=name("g"), arguments=seq(var("p")))), ("none", lambda: None), ("literal", lambda: num(3)), ("folded", lambda: bin_("Add", num(2), num(3))), ("self", lambda: var("t"))):
            yield f"temporary:{tl}:{il}", lambda t=t, init=init: [ev("a"), decl("t", ty(t), init()), ret(var("t"))]
            yield f"temporary not returned:{tl}:{il}", lambda t=t, init=init: [decl("t", ty(t), init()), ret(var("u"))]
            yield f"temporary in expression:{tl}:{il}", lambda t=t, init=init: [decl("t", ty(t), init()), ret(bin_("Add", var("t"), var("q")))]
            yield f"temporary then event:{tl}:{il}", lambda t=t, init=init: [decl("t", ty(t), init()), ev("a"), ret(var("t"))]
            yield f"temporary first of two:{tl}:{il}", lambda t=t, init=init: [decl("t", ty(t), init()), decl("u", ty(t), var("t")), ret(var("u"))]
            yield f"temporary modified:{tl}:{il}", lambda t=t, init=init: [decl("t", ty(t), init()), S("Assignment", target=name("t"), value=v(bin_("Add", var("t"), num(1)))), ret(var("t"))]
            yield f"temporary in branch:{tl}:{il}", lambda t=t, init=init: [if_(var("c"), [decl("t", ty(t), init()), ret(var("t"))]), ret(num(0))]
    # long bodies: nothing is lost, order is kept, whatever number of rounds is needed
    for n in (0, 1, 2, 3, 6):
        yield f"length:{n}", lambda n=n: [ev(f"s{i}") for i in range(n)]
        yield f"nesting:{n}", lambda n=n: nest(n)
        yield f"nested constants:{n}", lambda n=n: [ret(chain(n))]


def nest(n):
    s = [ev("in"), if_(num(0), [ev("dead")]), ev("out")]
    for i in range(n):
        s = [ev(f"a{i}"), if_(num(i % 2 + 1), s, [ev(f"x{i}")]) if i % 3 else if_(var(f"c{i}"), s, [ev(f"y{i}")]), ev(f"b{i}")]
    return s


def chain(n):
    e = var("x")
    for i in range(n):
        e = bin_("Add", e, bin_("Multiply", num(2), num(i)))
    return e


def stmts(h):
    P = B.P
    e = lambda: v(h())
    yield "declaration", decl("d", ty("Int"), h())
    yield "return", if_(var("rc"), [ret(h())])
    yield "assignment", S("Assignment", target=name("x"), value=e())
    yield "expression", S("Expression", **{"0": e()})
    yield "if", if_(h(), [ev("t")])
    yield "if else", if_(h(), [ev("t")], [ev("n")])
    yield "then", if_(var("k"), [S("Expression", **{"0": e()})], [ev("n")])
    yield "else", if_(var("k"), [ev("t")], [S("Assignment", target=name("x"), value=e())])
    yield "while", while_(h(), [ev("t"), if_(var("j"), [S("Break")])])
    yield "while body", while_(var("k"), [S("Expression", **{"0": e()}), ev("t")])
    yield "for init", for_([S("Assignment", target=name("x"), value=e())], var("k"), [ev("n")], [ev("t")])
    yield "for condition", for_([ev("i")], h(), [ev("n")], [ev("t"), if_(var("j"), [S("Break")])])
    yield "for increment", for_([ev("i")], var("k"), [S("Assignment", target=name("x"), value=e())], [ev("t")])
    yield "for body", for_([ev("i")], var("k"), [ev("n")], [S("Expression", **{"0": e()}), ev("t")])
    yield "for ever", for_([], None, [ev("n")], [S("Expression", **{"0": e()}), if_(var("j"), [S("Break")])])
    yield "switch", switch(h(), [(num(1), [ev("o"), S("Break")]), (num(2), [ev("t")])], [ev("d")])
    yield "case", switch(var("k"), [(num(1), [S("Expression", **{"0": e()}), S("Break")])], None)
    yield "default", switch(var("k"), [(num(1), [ev("t")])], [S("Expression", **{"0": e()})])
    for x in P.adts[HS]["vars"]:
        if x["n"] in ("DerefAssignment", "ArrayIndexAssignment", "FieldAssignment", "Free", "InlineAsm"):
            ex = [f for f, t in x["f"] if HE in t]
            for p in ex or [None]:
                yield f"{x['n']}.{p}", S(x["n"], **{f: v(h() if f == p else var(f"v_{f}")) for f in ex})


PASS = "optimize_function"


def fval(P, body, rt):
    t = next(n for n in P.adts if n.endswith("decy_hir::HirFunction"))
    a = P.adts[t]["vars"][0]
    fs = []
    for n, y in a["f"]:
        if n == "body":
            fs.append((n, v(some(body))))
        elif n == "return_type":
            fs.append((n, v(rt)))
        else:
            fs.append((n, v(sym("fn_" + n, y))))
    return T("adt", t, a["n"], tuple(fs))


def check(c, item):
    key, mk = item
    B.P = P = c.P
    rt = ty("Int")
    body = seq(*mk())
    f = fval(P, body, rt)
    b = P.fn(PASS)
    I = c.interp(root=b["name"], unroll=60, maxdepth=60)
    I.recurse = 12
    V = cg.runp(c, I, b, {0: v(f)})
    where = c.where(b)
    try:
        want = Flow(repr(rt)).block(body, {})
    except Unclear as e:
        raise AssertionError(f"{key}: {e}")
    if not V:
        c.ob("body:" + key, False, "no result: the pass does not return on this body", where, val=V)
    for t in V:
        try:
            g = dict(t.a[2])
            ob = only(g["body"])
            got = Flow(repr(rt)).block(dict(ob.a[2])["0"], {}) if ob.a[1] == "Some" else []
            d = same(want, got)
        except (Unclear, flow.Bad, AttributeError, KeyError, TypeError) as e:
            c.ob("body:" + key, False, f"result {show(v(t))[:500]}: {e!r}", where, val=v(t))
            continue
        c.ob("body:" + key, d is None, f"{show(body)[:400]} becomes {show(g['body'])[:500]}: {d}", where, val=v(t))
        if key.startswith("length"):
            for n, x in f.a[2]:
                if n != "body":
                    c.ob(f"function:{n}:{key}", g.get(n) == x or show(g.get(n, frozenset())).strip("“<>”") == show(x), f"{n} of the function becomes {show(g.get(n, frozenset()))[:200]}", where, val=g.get(n, frozenset()))


def run(c):
    B.P = c.P
    items = list(bodies())
    ctx.par(c, items, check)
    c.count("bodies", len(items))
    c.floor("bodies", len(items), 4000)
