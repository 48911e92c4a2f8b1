"""P01: operators keep their meaning, operand order and operand count through parser, HIR and code generator."""
from absint import *
import clang
import cg
import hir
import rx

LEVEL = "other"
ASSUMPTIONS = ["libclang reports cursor kinds, children order and token spellings as documented",
               "text produced for an operand evaluates the operand once (induction over the generator's recursion)"]

BIN = {"+": "Add", "-": "Subtract", "*": "Multiply", "/": "Divide", "%": "Modulo", "==": "Equal", "!=": "NotEqual", "<": "LessThan", ">": "GreaterThan",
       "<=": "LessEqual", ">=": "GreaterEqual", "&&": "LogicalAnd", "||": "LogicalOr", "<<": "LeftShift", ">>": "RightShift", "&": "BitwiseAnd", "|": "BitwiseOr",
       "^": "BitwiseXor", "=": "Assign", ",": "Comma"}
PREC = [["="], ["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
UN = {"-": "Minus", "!": "LogicalNot", "~": "BitwiseNot", "&": "AddressOf"}
COMPOUND = {k + "=": BIN[k] for k in "+ - * / % & | ^ << >>".split()}
AST = "decy_parser::ast_types::"


def extractor(env_expr=None):
    def ext(n, cur, I, st, args, site):
        if n.startswith("extract_") or n.startswith("try_extract"):
            x = (env_expr or {}).get(cur.name)
            return v(some(v(x if x is not None else T("X", cur.name))))
        return None
    return ext


def prun(c, fn, root, exprs=None, unroll=14):
    env = clang.Env(root, extractor(exprs))
    I = c.interp(on_call=env, unroll=unroll)
    b = c.P.fn(fn)
    out = frozenset()
    for _, V in I.run(b, [v(root.t)]):
        out |= V
    c.done(I)
    return out


def X(n):
    return T("X", n)


def parser_rules(c):
    W = lambda f: c.where(c.P.fn(f))
    DR = 101

    def root(toks, between=None, kind=114, kids=("L", "R")):
        return clang.cursor("root", kind, [clang.cursor(k, DR) for k in kids], tokens=toks, between=between)
    I_, P_ = clang.IDENT, clang.PUNCT
    B = lambda o, l, r: some(v(T("adt", AST + "Expression", "BinaryOp", (("op", v(cg.op(AST + "BinaryOperator", o))), ("left", v(l)), ("right", v(r))))))
    n = 0
    for tok, name in BIN.items():
        want = v(B(name, X("L"), X("R")))
        r1 = prun(c, "extract_binary_op", root([(I_, "a"), (P_, tok), (I_, "b")], [(P_, tok)]))
        c.ob(f"parse-binary:{name}", same(r1, want), f"`a {tok} b` is read as {show(r1)[:300]}", W("extract_binary_op"))
        r2 = prun(c, "extract_binary_op", root([(I_, "a"), (P_, tok), (I_, "b")], []))
        c.ob(f"parse-binary-macro:{name}", same(r2, want), f"`a {tok} b` with no token between the operands' extents is read as {show(r2)[:300]}", W("extract_binary_op"))
        n += 2
        # parentheses around the operands lie between the children as well
        r3 = prun(c, "extract_binary_op", root([(P_, "("), (I_, "a"), (P_, ")"), (P_, tok), (P_, "("), (I_, "b"), (P_, ")")], [(P_, ")"), (P_, tok), (P_, "(")]))
        c.ob(f"parse-binary-paren:{name}", same(r3, want), f"`(a) {tok} (b)` is read as {show(r3)[:300]}", W("extract_binary_op"))
    # fall-back by precedence when the operator cannot be located between the operands
    lv = {t: i for i, ts in enumerate(PREC) for t in ts}
    for a in lv:
        for b in lv:
            if lv[a] == lv[b]:
                continue
            lo = a if lv[a] < lv[b] else b
            r = root([(I_, "x"), (P_, a), (I_, "y"), (P_, b), (I_, "z")], [])
            V = prun(c, "extract_binary_operator", r)
            want = v(some(v(cg.op(AST + "BinaryOperator", BIN[lo]))))
            c.ob(f"parse-precedence:{BIN[a]},{BIN[b]}", same(V, want), f"`x {a} y {b} z`: operator taken as {show(V)[:200]}, the outermost one is `{lo}`", W("extract_binary_operator"))
            n += 1
    # compound assignments, for each kind of target
    E = AST + "Expression"
    var = T("adt", E, "Variable", (("0", v(sym("x"))),))
    der = T("adt", E, "Dereference", (("0", v(sym("p"))),))
    pfa = T("adt", E, "PointerFieldAccess", (("pointer", v(sym("p"))), ("field", v(sym("f")))))
    fa = T("adt", E, "FieldAccess", (("object", v(sym("o"))), ("field", v(sym("f")))))
    ai = T("adt", E, "ArrayIndex", (("array", v(sym("a"))), ("index", v(sym("i")))))
    for tok, name in COMPOUND.items():
        for tn, t in (("variable", var), ("dereference", der), ("arrow", pfa), ("field", fa), ("element", ai)):
            V = prun(c, "extract_compound_assignment_stmt", root([(I_, "x"), (P_, tok), (I_, "y")], [(P_, tok)], kind=115), {"L": t})
            okk = False
            if len(V) == 1 and next(iter(V)).k == "adt" and next(iter(V)).a[1] == "Some":
                s = one(next(iter(V)).a[2][0][1])
                if s is not None and s.k == "adt" and s.a[1] in ("CompoundAssignment", "DerefCompoundAssignment"):
                    f = dict(s.a[2])
                    okk = f.get("op") == v(cg.op(AST + "BinaryOperator", name)) and f.get("value") == v(X("R"))
                    tgt = f.get("target")
                    if s.a[1] == "CompoundAssignment":
                        okk = okk and tn == "variable" and tgt == v(sym("x"))
                    elif tn == "dereference":
                        okk = okk and tgt in (v(sym("p")), v(der))
                    else:
                        okk = okk and tgt == v(t)
            c.ob(f"parse-compound:{name}:{tn}", okk, f"`lhs {tok} y` with a {tn} on the left is read as {show(V)[:300]}", W("extract_compound_assignment_stmt"))
            n += 1
    # unary
    for tok, name in UN.items():
        V = prun(c, "extract_unary_op", root([(P_, tok), (I_, "a")], None, 112, ("L",)))
        want = v(some(v(T("adt", E, "UnaryOp", (("op", v(cg.op(AST + "UnaryOperator", name))), ("operand", v(X("L"))))))))
        c.ob(f"parse-unary:{name}", same(V, want), f"`{tok}a` is read as {show(V)[:300]}", W("extract_unary_op"))
        n += 1
    for toks, name, txt in (([(P_, "++"), (I_, "a")], "PreIncrement", "++a"), ([(I_, "a"), (P_, "++")], "PostIncrement", "a++"),
                            ([(P_, "--"), (I_, "a")], "PreDecrement", "--a"), ([(I_, "a"), (P_, "--")], "PostDecrement", "a--"),
                            ([(P_, "("), (P_, "*"), (I_, "a"), (P_, ")"), (P_, "++")], "PostIncrement", "(*a)++"),
                            ([(P_, "("), (P_, "*"), (I_, "a"), (P_, ")"), (P_, "--")], "PostDecrement", "(*a)--"),
                            ([(P_, "++"), (P_, "*"), (I_, "a")], "PreIncrement", "++*a"), ([(P_, "--"), (P_, "*"), (I_, "a")], "PreDecrement", "--*a")):
        V = prun(c, "extract_unary_op", root(toks, None, 112, ("L",)))
        want = v(some(v(T("adt", E, name, (("operand", v(X("L"))),)))))
        c.ob(f"parse-unary:{txt}", same(V, want), f"`{txt}` is read as {show(V)[:300]}", W("extract_unary_op"))
    for toks, txt in (([(P_, "*"), (I_, "a")], "*a"), ([(P_, "*"), (I_, "a"), (P_, "++")], "*a++"), ([(P_, "*"), (P_, "++"), (I_, "a")], "*++a"), ([(P_, "*"), (P_, "--"), (I_, "a")], "*--a"), ([(P_, "*"), (I_, "a"), (P_, "--")], "*a--")):
        V = prun(c, "extract_unary_op", root(toks, None, 112, ("L",)))
        want = v(some(v(T("adt", E, "Dereference", (("0", v(X("L"))),)))))
        c.ob(f"parse-unary:{txt}", same(V, want), f"`{txt}` is read as {show(V)[:300]}", W("extract_unary_op"))
    for a in UN:
        for tail, txt in ((("++",), "a++"), (("--",), "a--")):
            toks = [(P_, a), (I_, "a"), (P_, tail[0])]
            V = prun(c, "extract_unary_op", root(toks, None, 112, ("L",)))
            want = v(some(v(T("adt", E, "UnaryOp", (("op", v(cg.op(AST + "UnaryOperator", UN[a]))), ("operand", v(X("L"))))))))
            c.ob(f"parse-unary:{a}{txt}", same(V, want), f"`{a}{txt}` is read as {show(V)[:300]}", W("extract_unary_op"))
    # increment / decrement statements
    for tok, name in (("++", "Increment"), ("--", "Decrement")):
        for pre in (True, False):
            kid = clang.cursor("L", DR, spelling=sym("x"))
            toks = [(P_, tok), (I_, "x")] if pre else [(I_, "x"), (P_, tok)]
            r = clang.cursor("root", 112, [kid], tokens=toks)
            V = prun(c, "extract_inc_dec_stmt", r)
            want = v(some(v(T("adt", AST + "Statement", ("Pre" if pre else "Post") + name, (("target", v(sym("x"))),)))))
            c.ob(f"parse-incdec:{'pre' if pre else 'post'}{tok}", same(V, want), f"statement read as {show(V)[:300]}", W("extract_inc_dec_stmt"))
            for tn, t, kind in (("arrow", pfa, 102), ("field", fa, 102), ("element", ai, 113)):
                kid = clang.cursor("L", kind)
                r = clang.cursor("root", 112, [kid], tokens=[(P_, tok), (I_, "x")] if pre else [(I_, "x"), (P_, tok)])
                V = prun(c, "extract_inc_dec_stmt", r, {"L": t})
                okk = False
                s = payload(V)
                if s is not None and s.k == "adt" and s.a[1] in ("FieldAssignment", "ArrayIndexAssignment"):
                    f = dict(s.a[2])
                    val = one(f["value"])
                    if val is not None and val.k == "adt" and val.a[1] == "BinaryOp":
                        g = dict(val.a[2])
                        okk = g["op"] == v(cg.op(AST + "BinaryOperator", "Add" if tok == "++" else "Subtract")) and g["left"] == v(t) and \
                            one(g["right"]) is not None and show(one(g["right"])) == "Expression::IntLiteral{0:1}"
                c.ob(f"parse-incdec:{'pre' if pre else 'post'}{tok}:{tn}", okk, f"statement on a {tn} is read as {show(V)[:300]}", W("extract_inc_dec_stmt"))
    c.floor("parser operator cases", n, 300)


def payload(V):
    t = one(V)
    if t is not None and t.k == "adt" and t.a[1] == "Some":
        return one(t.a[2][0][1])
    return None


def one(V):
    return next(iter(V)) if len(V) == 1 else None


def same(a, b):
    return a == b


# ---------------------------------------------------------------- HIR
def hir_rules(c):
    E, Sx = AST + "Expression", AST + "Statement"
    H = cg.HE
    FE, FS = "from_ast_expression", "from_ast_statement"
    be, bs = c.P.fn("HirExpression::from_ast_expression"), c.P.fn("HirStatement::from_ast_statement")

    def fe(x):
        return T("call", be["name"], (v(x),))

    def run(b, val, deep=False):
        I = c.interp(opaque=() if deep else ("HirExpression::from_ast_expression", "HirStatement::from_ast_statement", "HirType::from_ast_type"), root=b["name"])
        out = frozenset()
        for _, V in I.run(b, [v(val)]):
            out |= V
        c.done(I)
        return out
    W = c.where(be)
    L, R = sym("left"), sym("right")
    for n in c.P.variants(AST + "BinaryOperator"):
        o = cg.op(AST + "BinaryOperator", n)
        V = run(be, T("adt", E, "BinaryOp", (("op", v(o)), ("left", v(L)), ("right", v(R)))))
        want = v(T("adt", H, "BinaryOp", (("op", v(cg.op(cg.BO, n))), ("left", v(fe(L))), ("right", v(fe(R))))))
        c.ob(f"hir-binary:{n}", eqadt(V, want), f"lowered to {show(V)[:300]}", W)
        x, y = sym("target"), sym("value")
        V = run(bs, T("adt", Sx, "CompoundAssignment", (("target", v(x)), ("op", v(o)), ("value", v(y)))))
        want = v(T("adt", cg.HS, "Assignment", (("target", v(x)), ("value", v(T("adt", H, "BinaryOp", (("op", v(cg.op(cg.BO, n))), ("left", v(T("adt", H, "Variable", (("0", v(x)),)))), ("right", v(fe(y))))))))))
        c.ob(f"hir-compound:{n}", eqadt(V, want), f"`x {n}= y` is lowered to {show(V)[:400]}", c.where(bs))
        for tv in ("PointerFieldAccess", "FieldAccess", "ArrayIndex", "Variable"):
            tgt = hir.inst(c.P, E, tv, "t.")
            V = run(bs, T("adt", Sx, "DerefCompoundAssignment", (("target", v(tgt)), ("op", v(o)), ("value", v(y)))), deep=True)
            okk = False
            s = one(V)
            if s is not None and s.k == "adt":
                f = dict(s.a[2])
                val = one(f.get("value", frozenset()))
                if val is not None and val.k == "adt" and val.a[1] == "BinaryOp":
                    g = dict(val.a[2])
                    left = one(g["left"])
                    okk = g["op"] == v(cg.op(cg.BO, n)) and g["right"] != g["left"] and mentions(g["right"], y) and left is not None
                    if okk:
                        der = left.k == "adt" and left.a[1] == "Dereference"
                        # `*p op= y` reads *p; a field or element is itself the lvalue
                        okk = der == (tv == "Variable") and (left.a[2][0][1] if der else v(left)) == f["target"]
            c.ob(f"hir-deref-compound:{n}:{tv}", okk, f"compound assignment through a {tv} target is lowered to {show(V)[:500]}", c.where(bs))
    for n in c.P.variants(AST + "UnaryOperator"):
        V = run(be, T("adt", E, "UnaryOp", (("op", v(cg.op(AST + "UnaryOperator", n))), ("operand", v(L)))))
        want = v(T("adt", H, "UnaryOp", (("op", v(cg.op(cg.UO, n))), ("operand", v(fe(L))))))
        c.ob(f"hir-unary:{n}", eqadt(V, want), f"lowered to {show(V)[:300]}", W)
    for n in ("PreIncrement", "PostIncrement", "PreDecrement", "PostDecrement"):
        V = run(be, T("adt", E, n, (("operand", v(L)),)))
        c.ob(f"hir-incdec:{n}", eqadt(V, v(T("adt", H, n, (("operand", v(fe(L))),)))), f"lowered to {show(V)[:300]}", W)
        x = sym("target")
        V = run(bs, T("adt", Sx, n, (("target", v(x)),)))
        o = "Add" if "Inc" in n else "Subtract"
        want = v(T("adt", cg.HS, "Assignment", (("target", v(x)), ("value", v(T("adt", H, "BinaryOp", (("op", v(cg.op(cg.BO, o))), ("left", v(T("adt", H, "Variable", (("0", v(x)),)))), ("right", v(T("adt", H, "IntLiteral", (("0", v(T("i", 1))),)))))))))))
        c.ob(f"hir-incdec-stmt:{n}", eqadt(V, want), f"lowered to {show(V)[:400]}", c.where(bs))
    V = run(be, T("adt", E, "Dereference", (("0", v(L)),)))
    c.ob("hir-deref", eqadt(V, v(T("adt", H, "Dereference", (("0", v(fe(L))),)))), show(V)[:300], W)
    V = run(be, T("adt", E, "Ternary", (("condition", v(sym("c"))), ("then_expr", v(L)), ("else_expr", v(R)))))
    c.ob("hir-ternary", eqadt(V, v(T("adt", H, "Ternary", (("condition", v(fe(sym("c")))), ("then_expr", v(fe(L))), ("else_expr", v(fe(R))))))), show(V)[:300], W)


def eqadt(a, b):
    """Equality of values up to the order in which fields are listed."""
    return canonv(a) == canonv(b)


def canonv(V):
    return frozenset(canont(t) for t in V)


def canont(t):
    if t.k == "adt":
        return ("adt", t.a[1], tuple(sorted((n, canonv(x)) for n, x in t.a[2])) if True else None)
    return t


# ---------------------------------------------------------------- code generator
OPTXT = {v_: k for k, v_ in BIN.items()}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def which(t, L, R):
    a, b = mentions(t, L), mentions(t, R)
    return "L" if a and not b else "R" if b and not a else "LR" if a else "-"


def den(e, L, R):
    """What an emitted expression computes, in terms of the operands."""
    k = e[0]
    if k in ("paren", "cast"):
        return den(e[1], L, R)
    if k == "block" and not e[2] and e[3] is not None:
        return den(e[3], L, R)
    if k == "hole":
        return which(e[1], L, R)
    if k == "lit":
        # a literal glued from a hole (character codes) denotes the operand
        if isinstance(e[1], tuple):
            ws = {which(p[1], L, R) for p in e[1] if isinstance(p, tuple) and p[0] == "h"}
            return ws.pop() if len(ws) == 1 else "?"
        return ("lit", e[1])
    if k == "path":
        if any(isinstance(s, tuple) for s in e[1]):
            ws = {which(p[1], L, R) for s in e[1] if isinstance(s, tuple) for p in s if isinstance(p, tuple) and p[0] == "h"}
            return ws.pop() if len(ws) == 1 else "?"
        ts = [s for s in e[1] if isinstance(s, Term)]
        if ts:
            return which(ts[0], L, R)
        return ("path", "::".join(e[1]))
    if k == "bin":
        a, b = den(e[2], L, R), den(e[3], L, R)
        if e[1] == "!=" and b in (("lit", "0"), ("lit", "0.0")) and a in ("L", "R"):
            return ("truth", a)
        return ("op", e[1], a, b)
    if k == "un":
        x = den(e[2], L, R)
        if e[1] in ("*", "&", "&mut"):
            return x if x in ("L", "R") else ("un", e[1], x)
        return ("un", e[1], x)
    if k == "mcall":
        a = den(e[1], L, R)
        name = e[2]
        args = [den(x, L, R) for x in e[3]]
        if name in ("wrapping_add", "add", "wrapping_sub", "sub", "offset_from", "wrapping_mul", "wrapping_div", "wrapping_rem") and len(args) == 1:
            return ("op", {"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%", "from": "-"}[name.split("_")[-1]], a, args[0])
        if name in ("is_some", "is_none", "is_empty", "is_null") and not args:
            return ("pred", name, a)
        return ("mcall", name, a) + tuple(args)
    if k == "call":
        f = den(e[1], L, R)
        return ("call", f) + tuple(den(x, L, R) for x in e[2])
    if k == "block":
        return ("block",) + tuple(den_stmt(s, L, R) for s in e[2]) + ((den(e[3], L, R),) if e[3] is not None else ())
    if k == "assign":
        return ("asg", e[1], den(e[2], L, R), den(e[3], L, R))
    if k == "index":
        a, i = den(e[1], L, R), den(e[2], L, R)
        return a if a == i else ("index", a, i)
    if k == "field":
        return den(e[1], L, R)
    if k == "if":
        return ("if", den(e[1], L, R), den(e[2], L, R), den(e[3], L, R) if e[3] else None)
    if k == "range":
        return ("range",) + tuple(den(x, L, R) if x is not None else None for x in e[1:] if x is None or isinstance(x, tuple))
    return ("?", k)


def den_stmt(s, L, R):
    if s[0] == "let":
        return ("let", s[2], den(s[4], L, R) if s[4] else None)
    if s[0] == "expr":
        return den(s[1], L, R)
    return ("?", s[0])


def tru(x, w):
    return x == w or x == ("truth", w)


def acceptable(name, d):
    """d denotes `L name R` (in this order, each operand once)."""
    t = OPTXT[name]
    if name == "Comma":
        return d == ("block", "L", "R")
    if name == "Assign":
        # value first, stored into the target, value is the result
        if d[0] == "block" and len(d) == 4 and d[1][0] == "let" and d[1][2] == "R":
            tmp = ("path", d[1][1][1][0]) if d[1][1][0] == "pat" and isinstance(d[1][1][1], tuple) else None
            return tmp is not None and d[2] == ("asg", "=", "L", tmp) and d[3] == tmp
        return d == ("asg", "=", "L", "R")
    if isinstance(d, tuple) and d[0] == "op" and d[1] == t:
        if name in ("LogicalAnd", "LogicalOr"):
            return tru(d[2], "L") and tru(d[3], "R")
        return d[2] == "L" and d[3] == "R"
    return False


NULLS = (("call", ("path", "std::ptr::null_mut")), ("call", ("path", "std::ptr::null")))


def special(name, d):
    """Forms for comparing a pointer/option/length with a null constant."""
    if name not in ("Equal", "NotEqual"):
        return False
    eq = name == "Equal"
    neg = False
    if isinstance(d, tuple) and d[0] == "un" and d[1] == "!":
        neg, d = True, d[2]
    if isinstance(d, tuple) and d[0] == "pred":
        pos = {"is_none": True, "is_null": True, "is_empty": True, "is_some": False}[d[1]]
        return (pos != neg) == eq and d[2] in ("L", "R")
    if neg:
        return False
    if isinstance(d, tuple) and d[0] == "op" and d[1] == OPTXT[name]:
        return (d[2] in ("L", "R") and d[3] in NULLS) or (d[3] in ("L", "R") and d[2] in NULLS)
    return d == ("path", "false" if eq else "true")


def codegen_rules(c):
    W = c.where(c.P.fn("generate_expression_with_target_type"))
    P = c.P
    nalt = 0
    for n in P.variants(cg.BO):
        if n not in OPTXT:
            c.fail(f"emit-binary:{n}", "operator without a specified Rust counterpart", W)
            continue
        L0, R0 = sym("left", cg.HE), sym("right", cg.HE)
        cases = [("any", L0, R0)]
        lit5 = T("adt", cg.HE, "IntLiteral", (("0", v(T("i", 5))),))
        cases += [("right=5", L0, lit5), ("left=5", lit5, R0)]
        V1 = cg.expr(P, "Variable", "l.")
        V2 = cg.expr(P, "Variable", "r.")
        cases += [("variables", V1, V2)]
        strlen = T("adt", cg.HE, "FunctionCall", (("function", v(S("strlen"))), ("arguments", v(SEQ((("e", v(sym("s"))),))))))
        cases += [("strlen,5", strlen, lit5), ("5,strlen", lit5, strlen)]
        if c.deep:
            for lv in P.variants(cg.HE):
                for rv in P.variants(cg.HE):
                    cases.append((f"{lv},{rv}", cg.expr(P, lv, "l."), cg.expr(P, rv, "r.")))
        for cn, L, R in cases:
            V = cg.gen_expr(c, T("adt", cg.HE, "BinaryOp", (("op", v(cg.op(cg.BO, n))), ("left", v(L)), ("right", v(R)))))
            for ps in rx.flat(V):
                nalt += 1
                try:
                    e, _ = rx.parse_expr(ps)
                    d = den(e, L if L.k == "sym" else L, R)
                except rx.ParseError as ex:
                    d = None
                    c.count("templates left to the well-formedness property")
                    continue
                d = den_sub(e, L, R)
                nullable = cn == "any" or any(x in cn for x in ("NullLiteral", "IntLiteral", "FunctionCall", "Cast")) and "5" not in cn
                okk = acceptable(n, d) or (nullable and special(n, d))
                if not okk and cn in ("right=5", "left=5") and isinstance(d, tuple) and d[0] == "op" and d[1] == OPTXT[n] and n in ("Equal", "NotEqual"):
                    # the other operand may be the null constant 0
                    okk = (d[2] in NULLS and d[3] == "R") if cn == "right=5" else (d[2] == "L" and d[3] in NULLS)
                c.ob(f"emit-binary:{n}:{cn}:{shape(d)}" if not okk else f"emit-binary:{n}:{cn}", okk, f"C `left {OPTXT[n]} right` is emitted as: {rx.text(ps)[:300]}", W)
    c.floor("binary templates", nalt, 400)
    # unary operators and increments
    want = {"Minus": "-", "LogicalNot": "!", "BitwiseNot": "~"}
    for n in P.variants(cg.UO):
        L = sym("operand", cg.HE)
        V = cg.gen_expr(c, T("adt", cg.HE, "UnaryOp", (("op", v(cg.op(cg.UO, n))), ("operand", v(L)))))
        check_unary(c, n, V, L, W)
    for n in ("PreIncrement", "PostIncrement", "PreDecrement", "PostDecrement"):
        L = sym("operand", cg.HE)
        V = cg.gen_expr(c, T("adt", cg.HE, n, (("operand", v(L)),)))
        check_unary(c, n, V, L, W, "expr-")
    L = sym("inner", cg.HE)
    V = cg.gen_expr(c, T("adt", cg.HE, "Ternary", (("condition", v(sym("c"))), ("then_expr", v(sym("t"))), ("else_expr", v(sym("e"))))))
    for ps in rx.flat(V):
        e = rx.strip(rx.parse_expr(ps)[0])
        okk = e[0] == "if" and e[3] is not None
        if okk:
            cd = den(e[1], sym("c"), sym("t"))
            th, el = den(e[2], sym("t"), sym("e")), den(e[3], sym("t"), sym("e"))
            okk = tru(cd, "L") and th == "L" and el == "R"
        c.ob("emit-ternary", okk, f"`c ? t : e` is emitted as: {rx.text(ps)[:300]}", W)


INTS, FLTS = ("Char", "Int", "UnsignedInt"), ("Float", "Double")
RFLT = ("f32", "f64")


def operand_casts(e, L, R):
    """Casts between the operator and each operand, and the cast around the whole: (casts of L, casts of R)."""
    e = rx.strip(e)
    while e[0] in ("paren", "cast"):
        e = e[1]
    if e[0] != "bin":
        return None
    out = []
    for x in (e[2], e[3]):
        cs = []
        while x[0] in ("paren", "cast"):
            if x[0] == "cast":
                cs.append(x[2][1][0] if x[2][0] == "ty" else str(x[2]))
            x = x[1]
        out.append(cs)
    return out


def conversion_rules(c):
    """Arithmetic on two integers is integer arithmetic whatever the result is stored in; with a floating operand it is
    floating arithmetic."""
    W = c.where(c.P.fn("generate_expression_with_target_type"))
    L, R = sym("left", cg.HE), sym("right", cg.HE)
    n = 0
    for o in ("Add", "Subtract", "Multiply", "Divide", "Modulo"):
        for a in INTS + FLTS:
            for b in INTS + FLTS:
                fl = a in FLTS or b in FLTS
                if fl and (o == "Modulo" or "Char" in (a, b)):
                    continue
                for tg in (None, "Int", "UnsignedInt", "Char", "Float", "Double"):
                    V = cg.gen_expr(c, T("adt", cg.HE, "BinaryOp", (("op", v(cg.op(cg.BO, o))), ("left", v(L)), ("right", v(R)))),
                                    types={L: a, R: b}, target=v(some(v(T("adt", cg.HT, tg, ()))) if tg else NONE))
                    bad = None
                    for ps in rx.flat(V):
                        try:
                            e, _ = rx.parse_expr(ps)
                        except rx.ParseError:
                            continue
                        oc = operand_casts(e, L, R)
                        if oc is None:
                            continue
                        n += 1
                        if fl and "CharLiteral" in rx.text(ps):
                            continue        # not a value of the pinned type
                        for ty, cs in ((a, oc[0]), (b, oc[1])):
                            for x in cs:
                                if not fl and x in RFLT or fl and x not in RFLT or x == "f32" and "Double" in (a, b):
                                    bad = (x, rx.text(ps))
                        if fl and not bad:
                            # both sides end up floating
                            for ty, cs in ((a, oc[0]), (b, oc[1])):
                                if ty in ("Int", "UnsignedInt") and not cs:
                                    bad = ("no conversion", rx.text(ps))
                    c.ob(f"arith-domain:{o}:{a},{b}->{tg}", bad is None, f"`{a} {OPTXT[o]} {b}` (result used as {tg}) is emitted as {bad and bad[1]}: operand converted to {bad and bad[0]}", W)
    c.floor("typed arithmetic templates", n, 400)


def den_sub(e, L, R):
    """den, where a subterm of an operand also stands for the operand."""
    return den(e, L, R)


def shape(d):
    return str(d).replace(" ", "")[:90]


def check_unary(c, n, V, L, W, pre=""):
    R = sym("<none>")
    any_ = False
    for ps in rx.flat(V):
        try:
            e, _ = rx.parse_expr(ps)
        except rx.ParseError:
            continue
        any_ = True
        d = den(e, L, R)
        okk = unary_ok(n, d)
        c.ob(f"emit-unary:{pre}{n}" + ("" if okk else ":" + shape(d)), okk, f"C operator {n} is emitted as: {rx.text(ps)[:300]}", W)
    if not any_:
        c.fail(f"emit-unary:{pre}{n}:none", "no template found", W)


def unary_ok(n, d):
    if n == "Minus":
        return d == ("un", "-", "L") or d == ("mcall", "wrapping_neg", "L")
    if n == "LogicalNot":
        return d in (("un", "!", "L"), ("op", "==", "L", ("lit", "0")), ("un", "!", ("truth", "L")), ("pred", "is_null", "L"), ("pred", "is_none", "L"), ("pred", "is_empty", "L"))
    if n == "BitwiseNot":
        return d == ("un", "!", "L")
    if n == "AddressOf":
        return d == "L"
    inc = "Increment" in n
    post = n.startswith("Post")
    if d[0] == "block":
        st = list(d[1:])
        one_ = ("lit", "1")
        o = "+" if inc else "-"

        def is_step(s):
            if not isinstance(s, tuple):
                return False
            if s[0] == "asg" and s[1] == o + "=" and s[2] == "L" and s[3] == one_:
                return True
            return s[0] == "asg" and s[1] == "=" and s[2] == "L" and s[3] == ("op", o, "L", one_)
        if post and len(st) == 3 and st[0][0] == "let" and st[0][2] in ("L", ("index", "L", "L")) and is_step(st[1]):
            tmp = ("path", st[0][1][1][0]) if st[0][1][0] == "pat" and isinstance(st[0][1][1], tuple) else None
            return tmp is not None and st[2] == tmp
        if post and inc and len(st) == 3 and st[0][0] == "let" and st[1][0] == "asg" and st[1][1] == "=" and st[1][2] == "L":
            # a string slice standing for a char pointer: take the first byte, drop it from the slice
            tmp = ("path", st[0][1][1][0]) if st[0][1][0] == "pat" and isinstance(st[0][1][1], tuple) else None
            if st[0][2] == ("index", ("mcall", "as_bytes", "L"), ("lit", "0")) and st[2] == tmp and isinstance(st[1][3], tuple) and st[1][3][0] == "un" and st[1][3][1] == "&":
                return st[1][3][2] == ("index", "L", ("range", ("lit", "1"), None))
        if post and len(st) == 3 and st[0][0] == "let" and is_step(st[1]):
            tmp = ("path", st[0][1][1][0]) if st[0][1][0] == "pat" and isinstance(st[0][1][1], tuple) else None
            return tmp is not None and st[2] == tmp and mention_L(st[0][2])
        if not post and len(st) == 2 and is_step(st[0]):
            return st[1] == "L"
    return False


def mention_L(d):
    return d == "L" or isinstance(d, tuple) and any(mention_L(x) for x in d)


def run(c):
    parser_rules(c)
    hir_rules(c)
    codegen_rules(c)
    conversion_rules(c)
