"""P03: nothing of the input program is lost, duplicated or reordered (statements, operands, declarations)."""
from absint import *
from csyn import *
import cg
import itertools
import ctx
import lower
from p01 import eqadt

LEVEL = "other"
ASSUMPTIONS = ["libclang reports cursor kinds, children order, types and token spellings as documented"]

V_ = lambda n: lv(var(n))
# every form an expression can take, over fresh variables
EXPRS = {
    "variable": lambda: V_("x"), "integer": lambda: num(7), "float": lambda: flit("2.5"), "character": lambda: clit("q"), "string": lambda: string("hi"),
    "parenthesised": lambda: paren(V_("x")), "sum": lambda: binary("+", V_("x"), V_("y")), "difference": lambda: binary("-", V_("x"), V_("y")),
    "product": lambda: binary("*", V_("x"), V_("y")), "quotient": lambda: binary("/", V_("x"), V_("y")), "remainder": lambda: binary("%", V_("x"), V_("y")),
    "equality": lambda: binary("==", V_("x"), V_("y")), "inequality": lambda: binary("!=", V_("x"), V_("y")), "less": lambda: binary("<", V_("x"), V_("y")),
    "greater": lambda: binary(">", V_("x"), V_("y")), "less-equal": lambda: binary("<=", V_("x"), V_("y")), "greater-equal": lambda: binary(">=", V_("x"), V_("y")),
    "and": lambda: binary("&&", V_("x"), V_("y")), "or": lambda: binary("||", V_("x"), V_("y")), "shift-left": lambda: binary("<<", V_("x"), V_("y")),
    "shift-right": lambda: binary(">>", V_("x"), V_("y")), "bit-and": lambda: binary("&", V_("x"), V_("y")), "bit-or": lambda: binary("|", V_("x"), V_("y")), "bit-xor": lambda: binary("^", V_("x"), V_("y")),
    "grouped-sum": lambda: paren(binary("+", V_("x"), V_("y"))), "nested": lambda: binary("*", paren(binary("+", V_("x"), V_("y"))), V_("z")),
    "negation": lambda: unary("-", V_("x")), "not": lambda: unary("!", V_("x")), "complement": lambda: unary("~", V_("x")), "address": lambda: unary("&", var("x")),
    "dereference": lambda: lv(deref_(V_("p"))), "post-increment": lambda: incdec("++", var("x"), False), "pre-increment": lambda: incdec("++", var("x"), True),
    "post-decrement": lambda: incdec("--", var("x"), False), "pre-decrement": lambda: incdec("--", var("x"), True),
    "element": lambda: lv(elem(V_("a"), V_("i"))), "field": lambda: lv(member(var("o"), "f", False)), "arrow": lambda: lv(member(V_("p"), "f", True)),
    "call": lambda: call("g"), "call-2": lambda: call("g", V_("x"), V_("y")), "cast": lambda: cast(CHAR, V_("x")), "cast-float": lambda: cast(DOUBLE, V_("x")),
    "conditional": lambda: cond(V_("x"), V_("y"), V_("z")), "sizeof": lambda: sizeof(INT), "grouped-conditional": lambda: paren(cond(V_("x"), V_("y"), V_("z"))),
    "assignment": lambda: paren(assign_expr(var("x"), V_("y"))), "call-3": lambda: call("g", num(1), call("h2", V_("x")), V_("y")), "deep": lambda: binary("+", elem(V_("a"), binary("-", V_("i"), num(1))), cond(binary("<", V_("x"), num(3)), call("g", V_("y")), unary("-", V_("z")))),
    "double-paren": lambda: paren(paren(binary("-", V_("x"), V_("y")))), "long-sum": lambda: binary("+", binary("-", binary("+", V_("x"), V_("y")), V_("z")), V_("w")), "arrow-chain": lambda: lv(member(lv(member(V_("p"), "f", True)), "g", True)),
    "field-of-element": lambda: lv(member(elem(V_("a"), V_("i")), "f", False)), "element-of-field": lambda: lv(elem(lv(member(V_("p"), "f", True)), V_("i"))), "two-dimensional": lambda: lv(elem(lv(elem(V_("a"), V_("i"))), V_("j"))),
    "deref-increment": lambda: lv(deref_(incdec("++", var("p"), False))), "double-deref": lambda: lv(deref_(lv(deref_(V_("p"))))), "cast-of-cast": lambda: cast(INT, cast(CHAR, V_("x"))), "negated-group": lambda: unary("!", paren(binary("&&", V_("x"), V_("y")))),
}


def assign_expr(l, r):
    return binary("=", l, r)



MARK = lambda n: calls(n)


def body(*ss):
    return func("fun", INT, [param("p1", INT)], block(calls("before"), *ss, calls("after")))


# expression positions
ECTX = {
    "returned value": lambda e: ret(e), "initialiser": lambda e: decl("d", INT, e), "assigned value": lambda e: assign(var("t"), e),
    "value assigned through pointer": lambda e: assign(deref_(V_("t")), e), "value assigned to element": lambda e: assign(elem(V_("t"), V_("k")), e),
    "value assigned to field": lambda e: assign(member(var("t"), "m", False), e), "value assigned through arrow": lambda e: assign(member(V_("t"), "m", True), e),
    "index of assigned element": lambda e: assign(elem(V_("t"), e), num(1)), "compound-assigned value": lambda e: compound(var("t"), "+", e),
    "value compound-assigned through pointer": lambda e: compound(deref_(V_("t")), "-", e),
    "if condition": lambda e: if_(e, block(MARK("m1"))), "if-else condition": lambda e: if_(e, block(MARK("m1")), block(MARK("m2"))),
    "else-if condition": lambda e: if_(V_("c"), block(MARK("m1")), if_(e, block(MARK("m2")), block(MARK("m3")))),
    "while condition": lambda e: while_(e, block(MARK("m1"))), "do condition": lambda e: do_(block(MARK("m1")), e),
    "for condition": lambda e: for_(assign(var("t"), num(0)), e, incs("++", var("t"), False), block(MARK("m1"))),
    "for initial value": lambda e: for_(assign(var("t"), e), V_("c"), incs("++", var("t"), False), block(MARK("m1"))),
    "for declared value": lambda e: for_(decl("t", INT, e), V_("c"), incs("++", var("t"), False), block(MARK("m1"))),
    "for increment value": lambda e: for_(assign(var("t"), num(0)), V_("c"), assign(var("t"), e), block(MARK("m1"))),
    "for increment amount": lambda e: for_(assign(var("t"), num(0)), V_("c"), compound(var("t"), "+", e), block(MARK("m1"))),
    "switch value": lambda e: switch_(e, [(num(1), [MARK("m1"), BREAK()])], [MARK("m2")]),
    "only argument": lambda e: calls("h", e), "first argument": lambda e: calls("h", e, V_("w")), "last argument": lambda e: calls("h", V_("w"), e),
    "left operand": lambda e: ret(binary("+", e, V_("w"))), "right operand": lambda e: ret(binary("-", V_("w"), e)), "compared operand": lambda e: ret(binary("==", e, V_("w"))),
    "logical operand": lambda e: ret(binary("&&", V_("w"), e)), "operand of negation": lambda e: ret(unary("-", e)), "operand of not": lambda e: ret(unary("!", e)),
    "cast operand": lambda e: ret(cast(INT, e)), "condition of ?:": lambda e: ret(cond(e, V_("u"), V_("w"))), "second operand of ?:": lambda e: ret(cond(V_("u"), e, V_("w"))),
    "third operand of ?:": lambda e: ret(cond(V_("u"), V_("w"), e)), "index": lambda e: ret(elem(V_("a1"), e)), "argument of nested call": lambda e: ret(call("h", V_("w"), e)),
    "object of arrow": lambda e: ret(member(paren(e), "m", True)), "dereferenced": lambda e: ret(lv(deref_(paren(e)))),
}


def multi(*ds):
    """`int a = 1, b;`: one statement with several declarators."""
    decls = [d.children[0] for d in ds]
    parts = []
    for i, d in enumerate(decls):
        parts += ([","] if i else []) + [d]
    return N(231, parts + [";"], flat(ds))


STMTS = {
    "declaration": lambda: decl("d", INT), "initialised declaration": lambda: decl("d", INT, V_("x")), "pointer declaration": lambda: decl("d", ptr(CHAR), V_("x")),
    "array declaration": lambda: decl("d", array(INT, 4)), "two declarations": lambda: multi(decl("d", INT, V_("x")), decl("e", INT)), "three declarations": lambda: multi(decl("d", INT), decl("e", INT, V_("y")), decl("f", INT, num(3))),
    "return": lambda: ret(), "return value": lambda: ret(V_("x")), "assignment": lambda: assign(var("t"), V_("x")), "assignment through pointer": lambda: assign(deref_(V_("t")), V_("x")),
    "assignment to element": lambda: assign(elem(V_("t"), V_("k")), V_("x")), "assignment to field": lambda: assign(member(var("t"), "m", False), V_("x")), "assignment through arrow": lambda: assign(member(V_("t"), "m", True), V_("x")),
    **{f"compound {o}=": (lambda o=o: compound(var("t"), o, V_("x"))) for o in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>")},
    "compound through pointer": lambda: compound(deref_(V_("t")), "+", V_("x")), "compound to element": lambda: compound(elem(V_("t"), V_("k")), "+", V_("x")), "compound to field": lambda: compound(member(var("t"), "m", False), "-", V_("x")),
    "compound through arrow": lambda: compound(member(V_("t"), "m", True), "*", V_("x")),
    "post-increment": lambda: incs("++", var("t"), False), "pre-increment": lambda: incs("++", var("t"), True), "post-decrement": lambda: incs("--", var("t"), False), "pre-decrement": lambda: incs("--", var("t"), True),
    "call": lambda: calls("g"), "call with arguments": lambda: calls("g", V_("x"), num(2), V_("y")), "comma": lambda: comma(assign(var("t"), num(1)), assign(var("u"), num(2))),
    "comma of three": lambda: comma(comma(assign(var("t"), num(1)), calls("g")), incs("++", var("u"), False)),
    "if": lambda: if_(V_("c"), block(MARK("m1"))), "if-else": lambda: if_(V_("c"), block(MARK("m1")), block(MARK("m2"))),
    "else-if chain": lambda: if_(V_("c"), block(MARK("m1")), if_(V_("d"), block(MARK("m2")), if_(V_("e"), block(MARK("m3")), block(MARK("m4"))))),
    "empty if": lambda: if_(V_("c"), block(), block(MARK("m2"))),
    "while": lambda: while_(V_("c"), block(MARK("m1"))), "do": lambda: do_(block(MARK("m1")), V_("c")),
    "for": lambda: for_(assign(var("i"), num(0)), binary("<", V_("i"), V_("n")), incs("++", var("i"), False), block(MARK("m1"))),
    "for declaring": lambda: for_(decl("i", INT, num(0)), binary("<", V_("i"), V_("n")), incs("++", var("i"), True), block(MARK("m1"))),
    "for declaring two": lambda: for_(multi(decl("i", INT, num(0)), decl("j", INT, V_("n"))), binary("<", V_("i"), V_("j")), comma(incs("++", var("i"), False), incs("--", var("j"), False)), block(MARK("m1"))),
    "for with commas": lambda: for_(comma(assign(var("i"), num(0)), assign(var("j"), num(1))), binary("<", V_("i"), V_("n")), comma(incs("++", var("i"), False), compound(var("j"), "+", num(2))), block(MARK("m1"))),
    "for stepping": lambda: for_(assign(var("i"), num(0)), binary("<", V_("i"), V_("n")), compound(var("i"), "+", num(2)), block(MARK("m1"))),
    "for shifting": lambda: for_(assign(var("i"), num(1)), binary("<", V_("i"), V_("n")), compound(var("i"), "<<", num(1)), block(MARK("m1"))),
    "for reassigning": lambda: for_(assign(var("i"), V_("h")), binary("!=", V_("i"), num(0)), assign(var("i"), member(V_("i"), "next", True)), block(MARK("m1"))),
    "for calling": lambda: for_(assign(var("i"), num(1)), binary("<", V_("i"), V_("n")), calls("step", V_("i")), block(MARK("m1"))),
    "for ever": lambda: for_(None, None, None, block(MARK("m1"), BREAK())), "for without init": lambda: for_(None, binary("<", V_("i"), V_("n")), incs("++", var("i"), False), block(MARK("m1"))),
    "for without step": lambda: for_(assign(var("i"), num(0)), binary("<", V_("i"), V_("n")), None, block(MARK("m1"))), "for with condition only": lambda: for_(None, binary("<", V_("i"), V_("n")), None, block(MARK("m1"))),
    "for declaring only": lambda: for_(decl("i", INT, num(0)), None, None, block(MARK("m1"), BREAK())), "for declaring without step": lambda: for_(decl("i", INT, num(0)), V_("c"), None, block(MARK("m1"))),
    "switch": lambda: switch_(V_("c"), [(num(1), [MARK("m1"), BREAK()]), (num(2), [MARK("m2"), assign(var("t"), num(3)), BREAK()])], [MARK("m3")]),
    "switch without default": lambda: switch_(V_("c"), [(num(1), [MARK("m1"), BREAK()]), (clit("k"), [MARK("m2"), ret(V_("x"))])], None),
    "conditional statement": lambda: condst(V_("c"), calls("g1"), calls("g2")), "and statement": lambda: andor("&&", V_("c"), calls("g1")), "or statement": lambda: andor("||", V_("c"), assign_p(var("t"), num(1))),
    "discarded call": lambda: N(117, ["(", "void", ")", calls("g", V_("x"))], calls("g", V_("x")).exp, ty=VOID), "parenthesised assignment": lambda: assign_p(var("t"), V_("x")),
    "nested loops": lambda: while_(V_("c"), block(MARK("m1"), for_(assign(var("i"), num(0)), V_("d"), incs("++", var("i"), False), block(MARK("m2"), if_(V_("e"), block(BREAK())))), MARK("m3"))),
}
INLOOP = {"break": BREAK, "continue": CONTINUE}
L = lambda b: while_(V_("q"), b)
SCTX = {
    "function body": (False, lambda s: s), "then branch": (False, lambda s: if_(V_("q"), block(MARK("b1"), s, MARK("b2")))), "else branch": (False, lambda s: if_(V_("q"), block(MARK("b0")), block(MARK("b1"), s, MARK("b2")))),
    "else-if branch": (False, lambda s: if_(V_("q"), block(MARK("b0")), if_(V_("q2"), block(MARK("b1"), s, MARK("b2")), block(MARK("b3"))))), "last else branch": (False, lambda s: if_(V_("q"), block(MARK("b0")), if_(V_("q2"), block(MARK("b1")), block(s, MARK("b3"))))),
    "while body": (True, lambda s: L(block(MARK("b1"), s, MARK("b2")))), "for body": (True, lambda s: for_(assign(var("i0"), num(0)), V_("q"), incs("++", var("i0"), False), block(MARK("b1"), s, MARK("b2")))),
    "do body": (True, lambda s: do_(block(MARK("b1"), s, MARK("b2")), V_("q"))), "first in case": (False, lambda s: switch_(V_("q"), [(num(1), [s, MARK("b1"), BREAK()]), (num(2), [MARK("b2"), BREAK()])], [MARK("b3")])),
    "later in case": (False, lambda s: switch_(V_("q"), [(num(1), [MARK("b0"), s, MARK("b1"), BREAK()]), (num(2), [MARK("b2"), BREAK()])], [MARK("b3")])),
    "in default": (False, lambda s: switch_(V_("q"), [(num(1), [MARK("b1"), BREAK()])], [MARK("b2"), s, MARK("b3")])), "only statement of default": (False, lambda s: switch_(V_("q"), [(num(1), [MARK("b1"), BREAK()])], [s])),
    "unbraced then branch": (False, lambda s: if_(V_("q"), s, block(MARK("b1")))), "unbraced else branch": (False, lambda s: if_(V_("q"), block(MARK("b1")), s)), "unbraced only branch": (False, lambda s: if_(V_("q"), s)),
    "unbraced while body": (True, lambda s: L(s)), "unbraced for body": (True, lambda s: for_(assign(var("i0"), num(0)), V_("q"), incs("++", var("i0"), False), s)), "unbraced do body": (True, lambda s: do_(s, V_("q"))),
    "after while": (False, lambda s: block(L(block(MARK("b1"))), s)), "loop in if": (True, lambda s: if_(V_("q"), block(L(block(s, MARK("b1")))))), "two deep": (False, lambda s: if_(V_("q"), block(if_(V_("q2"), block(MARK("b1"), s), block(MARK("b2"))), MARK("b3")))),
}
DECLS = ("declaration", "initialised declaration", "pointer declaration", "array declaration", "two declarations", "three declarations")
JUMPS = ("return", "return value", "break", "continue")


def assign_p(l, r):
    a = assign(l, r)
    return N(111, ["(", a, ")"], a.exp)


def condst(q, a, b):
    return N(116, [q, "?", a, ":", b], [stm("If", condition=q.exp, then_block=seq(a.exp), else_block=opt(seq(b.exp)))], ty=VOID)


def andor(o, q, a):
    neg = ex("UnaryOp", op=T("adt", AST + "UnaryOperator", "LogicalNot", ()), operand=q.exp)
    return N(114, [q, o, a], [stm("If", condition=q.exp if o == "&&" else neg, then_block=seq(a.exp), else_block=NONE)], ty=INT)


def do_(b, c):
    f = T("s", "do")
    want = [T("do", seq(b.exp), c.exp)]
    return N(208, ["do", b, "while", "(", c, ")"], want)


def switch_(e, cases, default):
    lab = []
    for k, ss in cases:
        lab.append((k, ss))
    parts = ["{"]
    exp = []
    for k, ss in cases:
        first = ss[0] if ss else N(230, [";"], [])
        parts += [N(203, ["case", k, ":", first]), ";"]
        for s in ss[1:]:
            parts += [s, ";"]
        exp.append(ast("SwitchCase", "SwitchCase", value=some(v(k.exp)), body=seq(flat(ss))))
    d = None
    if default is not None:
        parts += [N(204, ["default", ":", default[0]]), ";"]
        for s in default[1:]:
            parts += [s, ";"]
        d = seq(flat(default))
    b = N(202, parts + ["}"])
    return N(206, ["switch", "(", e, ")", b], [stm("Switch", condition=e.exp, cases=seq(exp), default_case=opt(d))])


def norm_do(V):
    """The loop a `do` statement is read as (one pass before the first test) is recognised whatever it looks like:
    declaration of a flag, then `while (flag || cond) { flag = 0; body }`."""
    return V


def check(c, item):
    key, mk = item
    f = mk()
    V = parse(c, unit(f))
    t = tree(V)
    got = field(t, "functions")
    want = v(f.exp)
    okk = False
    if got is not None and got.k == "seq":
        el = [p[1] for p in got.a[0] if p[0] == "e"]
        okk = len(el) == 1 and len(got.a[0]) == 1 and canon(el[0]) == canon(want)
    c.ob("parse:" + key, okk, f"`{f.text()}` is read as {show(v(field(one(el[0]), 'body')))[:900] if got is not None and got.k == 'seq' and el and one(el[0]) is not None and field(one(el[0]), 'body') is not None else show(V)[:600]}", c.where(c.P.fn("visit_statement", required=False) or c.P.fn("CParser::parse")), val=V)


FIRST = "do_first_pass"


def canon(V):
    """Values up to field order; a `do` loop in the form the front end gives it counts as that loop."""
    if isinstance(V, Term):
        if V.k == "adt":
            return ("adt", V.a[1], tuple(sorted((n, canon(x)) for n, x in V.a[2])))
        if V.k == "seq":
            out = []
            for p in V.a[0]:
                e = p[1] if p[0] == "e" else None
                t = one(e) if e is not None else None
                if t is not None and t.k == "do":
                    out.append(("do", canon(t.a[0]), canon(t.a[1])))
                elif out and t is not None and t.k == "adt" and t.a[1] == "While" and isinstance(out[-1], tuple) and out[-1][0] == "flag":
                    d = doform(t, out[-1][1])
                    if d is not None:
                        out[-1] = d
                    else:
                        out.append(canon(e))
                elif t is not None and t.k == "adt" and t.a[1] == "VariableDeclaration" and litname(t) is not None:
                    out.append(("flag", t))
                else:
                    out.append((p[0],) + tuple(canon(x) if isinstance(x, (frozenset, Term)) else x for x in p[1:]))
            return ("seq", tuple(x if not (isinstance(x, tuple) and x and x[0] == "flag") else ("e", canon(v(x[1]))) for x in out))
        return V
    if isinstance(V, frozenset):
        return frozenset(canon(t) for t in V)
    return V


def litname(t):
    """Name of a declared variable that does not come from the program."""
    n = field(t, "name")
    return n if n is not None and n.k == "str" else None


def doform(w, d):
    n = field(d, "name")
    i = field(d, "initializer", "0")
    cnd = field(w, "condition")
    b = field(w, "body")
    if i is None or i.a[1] != "IntLiteral" or field(i, "0") is not T("i", 1) or cnd is None or cnd.a[1] != "BinaryOp" or field(cnd, "op").a[1] != "LogicalOr":
        return None
    l, r = field(cnd, "left"), field(cnd, "right")
    if l is None or l.a[1] != "Variable" or field(l, "0") is not n or r is None or b is None or b.k != "seq" or not b.a[0] or b.a[0][0][0] != "e":
        return None
    s = one(b.a[0][0][1])
    if s is None or s.a[1] != "Assignment" or field(s, "target") is not n or field(s, "value", "0") is not T("i", 0):
        return None
    return ("do", canon(T("seq", b.a[0][1:])), canon(r))


def cases(deep):
    for cn, cx in ECTX.items():
        for en, e in EXPRS.items():
            if cn == "dereferenced" and en in ("float", "sizeof", "string", "integer", "character"):
                continue
            yield f"{cn}:{en}", lambda cx=cx, e=e: body(cx(e()))


    for cn, (loop, cx) in SCTX.items():
        for sn, s in list(STMTS.items()) + (list(INLOOP.items()) if loop else []):
            if sn in DECLS and ("unbraced" in cn or cn in ("first in case", "only statement of default")):
                continue        # not C
            if sn in JUMPS and cn in ("first in case", "later in case", "in default"):
                continue        # unreachable remainder: decided by the switch cases below
            yield f"{cn}:{sn}", lambda cx=cx, s=s: body(cx(s()))


def deepen(n, f, x):
    for i in range(n):
        x = f(i, x)
    return x


def long(deep):
    """Long lists, repeated elements and deep nesting: what happens to an element does not depend on how many there are."""
    n = 40
    allx = [e for k, e in EXPRS.items() if k not in ("assignment",)]
    for cn, mk in (("statement", lambda xs: calls("h", *xs)), ("returned", lambda xs: ret(call("h", *xs))), ("initialiser", lambda xs: decl("d", INT, call("h", *xs))), ("assigned", lambda xs: assign(var("t"), call("h", *xs))),
                   ("argument", lambda xs: calls("k", V_("u"), call("h", *xs), V_("w"))), ("operand", lambda xs: ret(binary("+", V_("u"), call("h", *xs)))), ("condition", lambda xs: if_(call("h", *xs), block(MARK("m1")))),
                   ("loop condition", lambda xs: while_(call("h", *xs), block(MARK("m1")))), ("negated", lambda xs: ret(unary("!", call("h", *xs[:14])))), ("cast", lambda xs: ret(cast(INT, call("h", *xs))))):
        yield f"call with every kind of argument, {cn}", lambda mk=mk: body(mk([e() for e in allx]))
        yield f"call with every kind of argument backwards, {cn}", lambda mk=mk: body(mk([e() for e in reversed(allx)]))
        yield f"call with {n} literals, {cn}", lambda mk=mk: body(mk([num(i) for i in range(n)]))
        yield f"call with equal arguments, {cn}", lambda mk=mk: body(mk([V_("x"), V_("x"), num(1), num(1), V_("x"), V_("x")]))
    for en, e in EXPRS.items():
        if en != "assignment":
            yield f"twelve arguments alike:{en}", lambda e=e: body(calls("h", *[e() for _ in range(12)]))
    plain = [x for k, x in STMTS.items() if k not in DECLS and k not in JUMPS]
    for cn, cx in MANY.items():
        yield f"every kind of statement in {cn}", lambda cx=cx: body(*cx([s() for s in plain]))
    for sn, s in STMTS.items():
        if sn not in DECLS and sn not in JUMPS:
            yield f"repeated statement:{sn}", lambda s=s: body(s(), s(), s())
            yield f"repeated statement in loop:{sn}", lambda s=s: body(L(block(s(), s())))
            yield f"repeated statement in case:{sn}", lambda s=s: body(switch_(V_("q"), [(num(1), [s(), s(), BREAK()]), (num(2), [s(), s(), BREAK()])], [s(), s()]))
    for o in ("+", "-", "*", "&&", "||", "&", "|"):
        yield f"long chain of {o}", lambda o=o: body(ret(deepen(4, lambda i, x: binary(o, x, num(i)), V_("x"))))
        yield f"deep right chain of {o}", lambda o=o: body(ret(deepen(4, lambda i, x: binary(o, num(i), paren(x)), V_("x"))))
    yield "deep parentheses", lambda: body(ret(deepen(4, lambda i, x: paren(x), V_("x"))))
    yield "deep calls", lambda: body(ret(deepen(4, lambda i, x: call(f"h{i}", x, num(i)), V_("x"))))
    yield "deep casts", lambda: body(ret(deepen(4, lambda i, x: cast(INT if i % 2 else CHAR, x), V_("x"))))
    yield "deep conditional", lambda: body(ret(deepen(4, lambda i, x: cond(V_(f"c{i}"), num(i), x), V_("x"))))
    yield "deep conditional, second operand", lambda: body(ret(deepen(4, lambda i, x: cond(V_(f"c{i}"), x, num(i)), V_("x"))))
    yield "deep not", lambda: body(ret(deepen(4, lambda i, x: unary("!", x), V_("x"))))
    yield "deep dereference", lambda: body(ret(deepen(3, lambda i, x: lv(deref_(x)), V_("x"))))
    yield "deep index", lambda: body(ret(deepen(3, lambda i, x: lv(elem(x, V_(f"i{i}"))), V_("a"))))
    yield "deep index in index", lambda: body(ret(deepen(4, lambda i, x: lv(elem(V_(f"a{i}"), x)), V_("i"))))
    yield "deep arrow", lambda: body(ret(deepen(3, lambda i, x: lv(member(x, f"f{i}", True)), V_("p"))))
    yield "deep if", lambda: body(deepen(4, lambda i, x: if_(V_(f"c{i}"), block(MARK(f"p{i}"), x, MARK(f"q{i}"))), MARK("m")))
    yield "deep if with else", lambda: body(deepen(4, lambda i, x: if_(V_(f"c{i}"), block(MARK(f"p{i}")), block(x, MARK(f"q{i}"))), MARK("m")))
    yield "long else-if", lambda: body(deepen(4, lambda i, x: if_(V_(f"c{i}"), block(MARK(f"p{i}")), x), block(MARK("m"))))
    yield "deep while", lambda: body(deepen(4, lambda i, x: while_(V_(f"c{i}"), block(MARK(f"p{i}"), x)), MARK("m")))
    yield "deep do", lambda: body(deepen(4, lambda i, x: do_(block(MARK(f"p{i}"), x), V_(f"c{i}")), MARK("m")))
    yield "deep for", lambda: body(deepen(4, lambda i, x: for_(assign(var(f"i{i}"), num(0)), V_(f"c{i}"), incs("++", var(f"i{i}"), False), block(MARK(f"p{i}"), x)), MARK("m")))
    yield "deep switch", lambda: body(deepen(3, lambda i, x: switch_(V_(f"c{i}"), [(num(1), [MARK(f"p{i}"), x, BREAK()])], [MARK(f"q{i}")]), MARK("m")))
    yield "long switch", lambda: body(switch_(V_("c"), [(num(i), [MARK(f"p{i}"), MARK(f"q{i}"), BREAK()]) for i in range(25)], [MARK("m")]))
    yield "long case", lambda: body(switch_(V_("c"), [(num(1), [MARK(f"p{i}") for i in range(25)] + [BREAK()])], [MARK(f"q{i}") for i in range(25)]))
    yield "many statements", lambda: body(*[MARK(f"p{i}") for i in range(60)])
    yield "many equal statements", lambda: body(*[MARK("p") for i in range(40)])
    yield "many declarations", lambda: body(*[decl(f"d{i}", INT, num(i)) for i in range(40)])
    yield "many declarators", lambda: body(multi(*[decl(f"d{i}", INT, num(i)) for i in range(20)]))
    yield "long comma", lambda: body(deepen(12, lambda i, x: comma(x, assign(var(f"t{i}"), num(i))), assign(var("t"), num(1))))
    yield "for with many steps", lambda: body(for_(deepen(8, lambda i, x: comma(x, assign(var(f"t{i}"), num(i))), assign(var("t"), num(1))), V_("c"), deepen(8, lambda i, x: comma(x, incs("++", var(f"t{i}"), False)), incs("++", var("t"), False)), block(MARK("m"))))
    yield "for with equal steps", lambda: body(for_(assign(var("t"), num(1)), V_("c"), comma(comma(incs("++", var("t"), False), incs("++", var("t"), False)), incs("++", var("t"), False)), block(MARK("m"))))


MANY = {
    "function body": lambda ss: ss, "then branch": lambda ss: [if_(V_("q"), block(*ss))], "else branch": lambda ss: [if_(V_("q"), block(MARK("b0")), block(*ss))], "while body": lambda ss: [L(block(*ss))],
    "for body": lambda ss: [for_(assign(var("i0"), num(0)), V_("q"), incs("++", var("i0"), False), block(*ss))], "do body": lambda ss: [do_(block(*ss), V_("q"))],
    "case": lambda ss: [switch_(V_("q"), [(num(1), ss + [BREAK()]), (num(2), [MARK("b2"), BREAK()])], [MARK("b3")])], "default": lambda ss: [switch_(V_("q"), [(num(1), [MARK("b1"), BREAK()])], ss)],
}


def lowering(c):
    """Every part of every construct of the syntax tree arrives in the intermediate form, lists element by element."""
    L = lower.Lower(c)
    n = L.homo(lower.SX, cg.HS, L.fs, ("FunctionCall",), "lower")
    # operators are compared by P01; new's type and literals of other kinds change their construct
    n += L.homo(lower.E, cg.HE, L.fe, ("BinaryOp", "UnaryOp", "CxxNew", "BoolLiteral"), "lower")
    args = SEQ(tuple(("e", v(sym(f"a{i}", lower.E))) for i in range(3)))
    out = SEQ(tuple(("e", v(L.call(L.fe, sym(f"a{i}", lower.E)))) for i in range(3)))
    V = L.run(L.fs, T("adt", lower.SX, "FunctionCall", (("function", v(sym("f", "alloc::string::String"))), ("arguments", v(args)))))
    want = v(T("adt", cg.HS, "Expression", (("0", v(T("adt", cg.HE, "FunctionCall", (("function", v(sym("f", "alloc::string::String"))), ("arguments", v(out)))))),)))
    c.ob("lower:FunctionCall", lower.eqadt(V, want), f"a call statement is lowered to {show(V)[:500]}", c.where(L.fs), val=V)
    c.floor("constructs lowered", n, 40)


def run(c):
    lowering(c)
    ctx.par(c, itertools.chain(cases(c.deep), long(c.deep)), check)
    c.floor("programs read", c.counts.get("obligations total", c.nob), 3000)
