"""P04: control flow is preserved: branches, loops, switch fall-through, break, continue and return."""
import itertools
from absint import *
from csyn import *
import cg
import ctx
import flow
import hir
import rx
import p03

LEVEL = "other"
ASSUMPTIONS = ["libclang reports cursor kinds, children order and token spellings as documented",
               "expression text is generated and grouped as P01 and P02 decide"]

EV = lambda n: ("ev", n)
JUMPS = {
    "none": [], "break": [("break",)], "continue": [("continue",)], "return": [("ret", "r")],
    "if-break": [("if", "j", [("break",)], None)], "if-continue": [("if", "j", [("continue",)], None)], "if-return": [("if", "j", [("ret", "r")], None)],
    "if-do-break": [("if", "j", [EV("j1"), ("break",)], [EV("j2")])], "else-break": [("if", "j", [EV("j1")], [EV("j2"), ("break",)])],
    "both-break": [("if", "j", [EV("j1"), ("break",)], [("break",)])], "break-or-continue": [("if", "j", [("break",)], [EV("j1"), ("continue",)])],
    "nested-if-break": [("if", "j", [EV("j1"), ("if", "h", [("break",)], None), EV("j2")], [EV("j3")])],
    "nested-if-continue": [("if", "j", [EV("j1"), ("if", "h", [("continue",)], [EV("j2")]), EV("j3")], None)],
}
INNER = {
    "plain": lambda b: b, "while": lambda b: [("while", "c", b)], "for": lambda b: [("for", [EV("i1"), EV("i2")], "c", [EV("n1"), EV("n2")], b)], "for-ever": lambda b: [("for", [], None, [EV("n1")], b)],
    "for-bare": lambda b: [("for", [], "c", [], b)], "if": lambda b: [("if", "c", b, None)], "if-else": lambda b: [("if", "c", [EV("t1")], b)], "else-if": lambda b: [("if", "c", [EV("t1")], [("if", "d", b, [EV("t2")])])],
    "case": lambda b: [("hswitch", "s", [((1,), b), ((2,), [EV("k2"), ("break",)]), (("default",), [EV("k3")])])],
    "last case": lambda b: [("hswitch", "s", [((1,), [EV("k1"), ("break",)]), ((2,), b)])],
    "default": lambda b: [("hswitch", "s", [((1,), [EV("k1"), ("break",)]), ((2,), [("ret", "r2")]), (("default",), b)])],
    "do": lambda b: [("do", b, "c")],
}
SUF = "'"


def ren(ss):
    """The statements with every name marked, so that two uses of a form do not share names."""
    out = []
    for s in ss:
        o = s[0]
        if o in ("ev", "ret"):
            out.append((o, s[1] + SUF))
        elif o == "if":
            out.append((o, s[1] + SUF, ren(s[2]), ren(s[3]) if s[3] is not None else None))
        elif o == "while":
            out.append((o, s[1] + SUF, ren(s[2])))
        elif o == "do":
            out.append((o, ren(s[1]), s[2] + SUF))
        elif o == "for":
            out.append((o, ren(s[1]), s[2] + SUF if s[2] else None, ren(s[3]), ren(s[4])))
        elif o in ("hswitch", "switch"):
            out.append((o, s[1] + SUF, [(l, ren(b)) for l, b in s[2]]))
        else:
            out.append(s)
    return out


def shapes(deep, parser):
    """Labelled programs: every jump in every construct inside every construct."""
    inner = [k for k in INNER if parser or k != "do"]
    for a in inner:
        for j, js in JUMPS.items():
            body = [EV("a"), *js, EV("b")] if js != JUMPS["none"] else [EV("a"), EV("b")]
            p = INNER[a](body)
            yield f"{a}:{j}", p
            for o in inner:
                if o != "plain" and a != "plain":
                    yield f"{o}/{a}:{j}", INNER[o](ren([EV("x")]) + p + ren([EV("y")])) if o != a else ren_outer(INNER[o], p)
                    if deep:
                        for o2 in ("while", "for", "case", "if-else"):
                            yield f"{o2}/{o}/{a}:{j}", ren2(INNER[o2], INNER[o], p)
    if parser:
        for k, p in switches():
            yield k, p


def ren_outer(mk, p):
    """mk applied around p, with mk's own names marked."""
    hole = ("ev", "HOLE")
    return fill(ren(mk([EV("x"), hole, EV("y")])), p)


def ren2(m2, m1, p):
    q = ren_outer(m1, p)
    return fill(ren(ren(m2([EV("x"), ("ev", "HOLE"), EV("y")]))), q)


def fill(ss, p):
    out = []
    for s in ss:
        if s[0] == "ev" and s[1].startswith("HOLE"):
            out += p
        elif s[0] == "if":
            out.append((s[0], s[1], fill(s[2], p), fill(s[3], p) if s[3] is not None else None))
        elif s[0] == "while":
            out.append((s[0], s[1], fill(s[2], p)))
        elif s[0] == "do":
            out.append((s[0], fill(s[1], p), s[2]))
        elif s[0] == "for":
            out.append((s[0], s[1], s[2], s[3], fill(s[4], p)))
        elif s[0] in ("hswitch", "switch"):
            out.append((s[0], s[1], [(l, fill(b, p)) for l, b in s[2]]))
        else:
            out.append(s)
    return out


def switches():
    """C switch statements: arms ending in break, return, continue or falling through, shared labels, default anywhere."""
    ends = {"break": [("break",)], "falls": [], "returns": [("ret", "r")], "if-breaks": [("if", "j", [("break",)], None)], "empty": None}
    for (e1, b1), (e2, b2), d in itertools.product(ends.items(), ends.items(), ("none", "first", "middle", "last", "shared")):
        arm = lambda n, b: [EV(n), *b] if b is not None else []
        arms = [((1,), arm("k1", b1)), ((2,), arm("k2", b2)), ((3,), [EV("k3"), ("break",)])]
        if d == "first":
            arms.insert(0, (("default",), [EV("k0"), ("break",)]))
        elif d == "middle":
            arms.insert(1, (("default",), [EV("k0")]))
        elif d == "last":
            arms.append((("default",), [EV("k0")]))
        elif d == "shared":
            arms[1] = ((2, "default"), arms[1][1])
        yield f"switch:{e1},{e2},default {d}", [EV("a"), ("switch", "s", arms), EV("b")]
        if e1 in ("falls", "if-breaks") and d in ("middle", "last"):
            yield f"loop/switch:{e1},{e2},default {d}", [("for", [EV("i1")], "c", [EV("n1")], [EV("a"), ("switch", "s", arms), EV("b")])]


def valid(ss, brk=False, cont=False):
    """Is every break and continue inside something it can leave, and nothing written after a jump?"""
    for n, s in enumerate(ss):
        o = s[0]
        if o == "break" and not brk or o == "continue" and not cont:
            return False
        if o in ("break", "continue", "ret") and n + 1 < len(ss) and ss[n + 1][0] != "dead":
            pass
        if o == "if" and not (valid(s[2], brk, cont) and valid(s[3] or [], brk, cont)):
            return False
        if o == "while" and not valid(s[2], True, True) or o == "do" and not valid(s[1], True, True) or o == "for" and not valid(s[4], True, True):
            return False
        if o in ("switch", "hswitch") and not all(valid(b, True, cont) for _, b in s[2]):
            return False
    return True


# ---- intermediate form of a described program
H = lambda P, n, **f: hir.inst(P, cg.HS, n, "", **f)


class Form:
    call = False        # conditions are comparisons, or calls (of any type)


def hexpr(n):
    P = Form.P
    if not n.startswith("c_"):
        return v(sym(n, cg.HE))
    if Form.call:
        return v(hir.inst(P, cg.HE, "FunctionCall", "", function=v(sym(n, "alloc::string::String")), arguments=v(SEQ(()))))
    return v(hir.inst(P, cg.HE, "BinaryOp", "", op=cg.op(cg.BO, "LessThan"), left=v(sym(n, cg.HE)), right=v(hir.inst(P, cg.HE, "IntLiteral", "", **{"0": v(T("i", 9))}))))


def hseq(P, ss):
    return v(SEQ(tuple(("e", v(hstmt(P, s))) for s in ss)))


def hstmt(P, s):
    o = s[0]
    if o == "ev":
        return H(P, "Expression", **{"0": hexpr("e_" + s[1])})
    if o == "ret":
        return H(P, "Return", **{"0": v(some(hexpr("e_" + s[1])))})
    if o == "break":
        return H(P, "Break")
    if o == "continue":
        return H(P, "Continue")
    if o == "if":
        return H(P, "If", condition=hexpr("c_" + s[1]), then_block=hseq(P, s[2]), else_block=v(some(hseq(P, s[3]))) if s[3] is not None else v(NONE))
    if o == "while":
        return H(P, "While", condition=hexpr("c_" + s[1]), body=hseq(P, s[2]))
    if o == "for":
        return H(P, "For", init=hseq(P, s[1]), condition=v(some(hexpr("c_" + s[2]))) if s[2] else v(NONE), increment=hseq(P, s[3]), body=hseq(P, s[4]))
    if o == "hswitch":
        cs, d = [], NONE
        for ls, b in s[2]:
            if ls == ("default",):
                d = some(hseq(P, b))
            else:
                val = some(v(sym(f"l_{ls[0]}", cg.HE)))
                cs.append(("e", v(T("adt", "decy_hir::SwitchCase", "SwitchCase", (("value", v(val)), ("body", hseq(P, b)))))))
        return H(P, "Switch", condition=hexpr("c_" + s[1]), cases=v(SEQ(tuple(cs))), default_case=v(d))
    raise KeyError(o)


# ---- emitted text as control flow
def marks(n):
    """Names of the described expressions whose text occurs in a parsed node, in order."""
    out = []
    for x in rx.walk(n):
        if x[0] == "hole":
            for y in symbols(x[1]):
                if y[:2] in ("e_", "c_"):
                    out.append(y)
    return out


def symbols(t):
    if isinstance(t, Term):
        if t.k == "sym" and isinstance(t.a[0], str):
            yield t.a[0]
        else:
            for y in t.a:
                yield from symbols(y)
    elif isinstance(t, (tuple, frozenset, list)):
        for y in t:
            yield from symbols(y)


class Unclear(Exception):
    pass


def cond_of(e):
    """(name, polarity) of a condition."""
    e = rx.strip(e)
    pos = True
    while True:
        if e[0] == "un" and e[1] == "!":
            pos, e = not pos, rx.strip(e[2])
        elif e[0] == "bin" and e[1] in ("!=", "==") and rx.strip(e[3])[0] == "num" and str(rx.strip(e[3])[1]).startswith("0"):
            pos, e = pos == (e[1] == "!="), rx.strip(e[2])
        elif e[0] == "mcall" and e[2] in ("is_null", "is_none", "is_empty"):
            pos, e = not pos, rx.strip(e[1])
        elif e[0] == "mcall" and e[2] == "is_some":
            e = rx.strip(e[1])
        else:
            break
    ms = [m for m in marks(e) if m.startswith("c_")]
    if len(set(ms)) != 1:
        raise Unclear(f"condition {rx.text([e]) if False else e!r}"[:200])
    return ms[0][2:], pos


def rust(st, tail=None):
    """Parsed Rust statements as control flow."""
    out = []
    for s in list(st) + ([("expr", tail)] if tail is not None else []):
        out += rust1(s)
    return out


def blk(b):
    if b is None:
        return None
    if b[0] == "block":
        return rust(b[2], b[3])
    return rust1(("expr", b))


def rust1(s):
    if s[0] == "let":
        return events(s)
    if s[0] != "expr":
        if s[0] == "item":
            return []
        raise Unclear(f"statement {s!r}"[:200])
    e = rx.strip(s[1])
    o = e[0]
    if o == "block":
        return rust(e[2], e[3])
    if o == "if":
        c, pos = cond_of(e[1] if e[1][0] != "let?" else e[1][2])
        a, b = blk(e[2]), blk(e[3]) or []
        return [("if", c, a, b) if pos else ("if", c, b, a)]
    if o == "while":
        if rx.strip(e[1])[0] == "bool" or e[1] == ("path", "true"):
            return [("loop", blk(e[2]))]
        c, pos = cond_of(e[1])
        if pos:
            return [("while", c, blk(e[2]))]
        return [("loop", [("if", c, [("break",)], blk(e[2]))])]
    if o == "loop":
        return [("loop", blk(e[1]))]
    if o == "match":
        ms = [m for m in marks(e[1]) if m.startswith("c_")]
        if len(set(ms)) != 1:
            raise Unclear(f"match on {e[1]!r}"[:200])
        arms, seen = [], set()
        for a in e[2]:
            if a[0] == "rep" or a[1] is not None:
                raise Unclear("match arm with a guard or of unknown number")
            ls = tuple(label(p) for p in a[0])
            arms.append((tuple(l for l in ls if l not in seen), blk(a[2])))
            seen |= set(ls)
            if "default" in ls:
                break
        return [("match", ms[0][2:], arms)]
    if o == "break":
        return [("break",)]
    if o == "continue":
        return [("continue",)]
    if o == "return":
        return [("ret", "+".join(m[2:] for m in marks(e)))]
    if o == "call" and "exit" in repr(e[1]):
        return [("ret", "+".join(m[2:] for m in marks(e)))]
    return events(e)


def label(p):
    ls = {y for y in symbols(p) if y.startswith("l_")}
    if len(ls) == 1:
        return int(ls.pop()[2:])
    t = repr(p)
    if "'_'" in t or "wild" in t:
        return "default"
    raise Unclear("pattern " + t[:100])


def events(n):
    ms = marks(n)
    return [("ev", "+".join(m[2:] for m in ms))] if ms else []


def gen(c, P, prog):
    b = P.fn("generate_statement_with_context")
    op = cg.EXPR + cg.TYPE + cg.OTHER
    I = c.interp(opaque=op, root=None, unroll=40, maxdepth=40)
    I.recurse = 8
    outs = []
    for s in prog:
        V = cg.runp(c, I, b, {cg.arg_of_type(b, "HirStatement"): hstmt(P, s), cg.arg_of_type(b, "Option<&str>", "Option<&'"): NONE})
        outs.append(V)
    return outs


def emit(c, item):
    key, prog, Form.call = item
    P = Form.P = c.P
    Vs = gen(c, P, prog)
    where = c.where("generate_statement_with_context")
    texts = [sorted({rx.text(p): p for p in rx.flat(V)}.items()) for V in Vs]
    n = 0
    for combo in itertools.product(*texts):
        n += 1
        ps = [x for _, p in combo for x in (*p, "\n")]
        txt = rx.text(ps)
        try:
            st, tail, _ = rx.parse_stmts(ps)
            got = rust(st, tail)
        except (Unclear, rx.ParseError, flow.Bad) as e:
            c.ob(f"emit:{key}", False, f"{txt[:600]}: {e}", where, val=frozenset().union(*Vs))
            continue
        try:
            d = flow.differ(prog, got)
        except flow.Bad as e:
            d = (str(e),)
        c.ob(f"emit:{key}", d is None, f"emitted as `{txt[:700]}`; differs after {d}", where, val=frozenset().union(*Vs))
    if not n:
        c.ob(f"emit:{key}", False, "no text is emitted", where, val=frozenset().union(*Vs))


# ---- the same programs as C source, and what the front end makes of them
def cstmt(s):
    o = s[0]
    if o == "ev":
        return calls("e_" + s[1])
    if o == "ret":
        return ret(lv(var("e_" + s[1])))
    if o == "break":
        return BREAK()
    if o == "continue":
        return CONTINUE()
    cnd = lambda n: lv(var("c_" + n))
    if o == "if":
        return if_(cnd(s[1]), cblock(s[2]), cblock(s[3]) if s[3] is not None else None)
    if o == "while":
        return while_(cnd(s[1]), cblock(s[2]))
    if o == "do":
        return p03.do_(cblock(s[1]), cnd(s[2]))
    if o == "for":
        j = lambda xs: None if not xs else cstmt(xs[0]) if len(xs) == 1 else comma(cstmt(xs[0]), cstmt(xs[1]))
        return for_(j(s[1]), cnd(s[2]) if s[2] else None, j(s[3]), cblock(s[4]))
    if o in ("switch", "hswitch"):
        parts = ["{"]
        for n, (ls, b) in enumerate(s[2]):
            b = list(b)
            if o == "hswitch" and n + 1 < len(s[2]) and not (b and b[-1][0] in ("break", "ret", "continue")):
                b.append(("break",))
            # an arm without statements carries on at the next label
            first = cstmt(b[0]) if b else N(230, [";"], [])
            for l in reversed(ls):
                first = N(204, ["default", ":", first]) if l == "default" else N(203, ["case", num(l), ":", first])
            parts += [first, ";"]
            for x in b[1:]:
                parts += [cstmt(x), ";"]
        return N(206, ["switch", "(", cnd(s[1]), ")", N(202, parts + ["}"])], [])
    raise KeyError(o)


def cblock(ss):
    return block(*[cstmt(s) for s in ss])


def name(V, pre):
    xs = {y for y in symbols(V) if y.startswith(pre)}
    if len(xs) != 1:
        raise Unclear("no single name in " + show(V)[:120] if isinstance(V, frozenset) else "?")
    return xs.pop()[2:]


def elems(V):
    t = one(V)
    if t is None or t.k != "seq" or any(q[0] != "e" for q in t.a[0]):
        raise Unclear("statements " + show(V)[:200])
    return [one(q[1]) for q in t.a[0]]


def optv(V):
    t = one(V)
    if t is None or t.k != "adt":
        raise Unclear("option " + show(V)[:100])
    return dict(t.a[2])["0"] if t.a[1] == "Some" else None


def ast_flow(V):
    ss = elems(V)
    out = []
    n = 0
    while n < len(ss):
        s = ss[n]
        n += 1
        if s is None:
            raise Unclear("ambiguous statement")
        if s.a[1] == "VariableDeclaration" and p03.litname(s) is not None and n < len(ss) and ss[n] is not None and ss[n].a[1] == "While":
            w = ss[n]
            b = elems(dict(w.a[2])["body"])
            if p03.doform(w, s) is not None and b:
                n += 1
                out.append(("do", ast_flow(v(SEQ(tuple(("e", v(x)) for x in b[1:])))), name(dict(field(w, "condition").a[2])["right"], "c_")))
                continue
        out += ast1(s)
    return out


def ast1(s):
    f = dict(s.a[2])
    k = s.a[1]
    if k == "FunctionCall":
        return [("ev", name(f["function"], "e_"))]
    if k == "Return":
        x = optv(f["0"])
        return [("ret", name(x, "e_") if x is not None else "")]
    if k == "Break":
        return [("break",)]
    if k == "Continue":
        return [("continue",)]
    if k == "If":
        e = optv(f["else_block"])
        return [("if", name(f["condition"], "c_"), ast_flow(f["then_block"]), ast_flow(e) if e is not None else None)]
    if k == "While":
        return [("while", name(f["condition"], "c_"), ast_flow(f["body"]))]
    if k == "For":
        cnd = optv(f["condition"])
        return [("for", ast_flow(f["init"]), name(cnd, "c_") if cnd is not None else None, ast_flow(f["increment"]), ast_flow(f["body"]))]
    if k == "Switch":
        arms = []
        for x in elems(f["cases"]):
            g = dict(x.a[2])
            val = optv(g["value"])
            i = field(one(val), "0") if val is not None and one(val) is not None and one(val).a[1] == "IntLiteral" else None
            if i is None or i.k != "i":
                raise Unclear("case label " + show(val or VTOP)[:100])
            arms.append(((i.a[0],), ast_flow(g["body"])))
        d = optv(f["default_case"])
        if d is not None:
            arms.append((("default",), ast_flow(d)))
        return [("hswitch", name(f["condition"], "c_"), arms)]
    raise Unclear("statement " + k)


def read(c, item):
    key, prog = item
    f = func("f", INT, [], block(calls("e_start"), *[cstmt(s) for s in prog], calls("e_end")))
    V = parse(c, unit(f))
    t = tree(V)
    got = field(t, "functions")
    where = c.where(c.P.fn("visit_statement", required=False) or c.P.fn("CParser::parse"))
    try:
        fs = elems(v(got)) if got is not None else []
        if len(fs) != 1 or fs[0] is None:
            raise Unclear("no function")
        g = ast_flow(dict(fs[0].a[2])["body"])
    except Unclear as e:
        c.ob("read:" + key, False, f"`{f.text()[:500]}`: {e}", where, val=V)
        return
    try:
        d = flow.differ([EV("start"), *prog, EV("end")], g)
    except flow.Bad as e:
        d = (str(e),)
    c.ob("read:" + key, d is None, f"`{f.text()[:700]}` is read as a program that differs after {d}", where, val=V)


def both(c, item):
    (emit if len(item) == 3 else read)(c, item)


def run(c):
    its = [(k + (" (call)" if f else ""), p, f) for k, p in shapes(c.deep, False) if valid(p) for f in (False, True) if c.deep or not f or "/" not in k]
    its += [(k, p) for k, p in shapes(c.deep, True) if valid(p)]
    ctx.par(c, its, both)
    c.floor("programs", len(its), 2500)
