"""P02: an operand that is itself a compound expression stays one operand in the emitted text."""
from absint import *
import cg
import ctx
import hir
import rx

LEVEL = "other"
ASSUMPTIONS = ["text produced for an operand in isolation is one Rust expression (property P08)"]
GEN = cg.EXPR


def unparen(n):
    if isinstance(n, tuple):
        if len(n) == 2 and n[0] == "paren":
            return unparen(n[1])
        return tuple(unparen(x) for x in n)
    return n


def own(c, kid):
    """What the generator emits for the operand alone: (templates with no expected type, templates with any), one
    representative per kind of outermost construct, and the set of all its trees."""
    allt = set()
    reps = []
    for tgt in (v(NONE), None):
        V = cg.gen_expr(c, kid, target=tgt)
        rep = {}
        for ps, e in trees(c, V, ""):
            ps = tuple(("h", T("k", p[1])) if isinstance(p, tuple) and p[0] == "h" else p for p in ps)
            e, _ = rx.parse_expr(ps)
            allt.add(unparen(e))
            rep.setdefault(e[0] + (str(e[1]) if e[0] in ("bin", "un") else ""), ps)
        reps.append(list(rep.values()))
    return reps, allt


def kid_hole(t, kid):
    """Is this hole the text generated for the operand? -> 0 (no expected type), 1 (some), None."""
    if t.k == "call" and t.a[0].split("::")[-1] in GEN:
        args = t.a[1]
        if any(kid in x for x in args if isinstance(x, frozenset)):
            n = t.a[0].split("::")[-1]
            if n != "generate_expression_with_target_type":
                return 0
            return 0 if any(NONE in x and len(x) == 1 for x in args if isinstance(x, frozenset)) else 1
    return None


def filled(ps, kid, reps):
    """The parent's template with each representative text in place of the operand."""
    which = {kid_hole(p[1], kid) for p in ps if isinstance(p, tuple) and p[0] == "h"} - {None}
    if not which:
        yield ps
        return
    for rep in reps[1 if 1 in which else 0]:
        out = []
        for p in ps:
            if isinstance(p, tuple) and p[0] == "h" and kid_hole(p[1], kid) is not None:
                out.extend(rep)
            else:
                out.append(p)
        merged = []
        for p in out:
            if isinstance(p, str) and merged and isinstance(merged[-1], str):
                merged[-1] += p
            else:
                merged.append(p)
        yield tuple(merged)


def trees(c, V, what):
    out = []
    for ps in rx.flat(V):
        try:
            e, _ = rx.parse_expr(ps)
        except rx.ParseError:
            c.count("templates left to the well-formedness property")
            continue
        out.append((ps, e))
    return out


def uncovered(n, S, marks):
    """Holes of the operand that do not lie in a subtree which is the operand's own text."""
    if isinstance(n, tuple):
        if n and isinstance(n[0], str):
            if n in S:
                return []
            if n[0] == "hole":
                return [n[1]] if n[1].k == "k" else []
        r = []
        for x in n:
            r += uncovered(x, S, marks)
        return r
    if isinstance(n, Term):
        return [n] if n.k == "k" else []
    return []


def kids(P):
    H = cg.HE
    B = lambda o: T("adt", H, "BinaryOp", (("op", v(cg.op(cg.BO, o))), ("left", v(sym("kl", H))), ("right", v(sym("kr", H)))))
    ks = [("sum", B("Add")), ("or", B("LogicalOr")), ("less", B("LessThan")), ("shift", B("LeftShift")), ("bitand", B("BitwiseAnd"))]
    ks += [(o, B(o)) for o in P.variants(cg.BO) if o not in ("Add", "LogicalOr", "LessThan", "LeftShift", "BitwiseAnd", "Assign", "Comma")]
    ks += [
          ("minus", T("adt", H, "UnaryOp", (("op", v(cg.op(cg.UO, "Minus"))), ("operand", v(sym("kl", H)))))),
          ("not", T("adt", H, "UnaryOp", (("op", v(cg.op(cg.UO, "LogicalNot"))), ("operand", v(sym("kl", H)))))),
          ("cast", T("adt", H, "Cast", (("target_type", v(T("adt", cg.HT, "Int", ()))), ("expr", v(sym("kl", H)))))),
          ("conditional", T("adt", H, "Ternary", (("condition", v(sym("kc", H))), ("then_expr", v(sym("kl", H))), ("else_expr", v(sym("kr", H)))))),
          ("deref", T("adt", H, "Dereference", (("0", v(sym("kl", H))),))),
          ("deref-var", T("adt", H, "Dereference", (("0", v(T("adt", H, "Variable", (("0", v(sym("kv"))),)))),)))]
    return ks


MARKS = [sym("kl", cg.HE), sym("kr", cg.HE), sym("kc", cg.HE)]


def parents(P, kid):
    """Every expression construct with the operand in one of its slots."""
    H = cg.HE
    for var in P.adts[H]["vars"]:
        n = var["n"]
        for f, ty in var["f"]:
            if "HirExpression" not in ty:
                continue
            if "Vec" in ty:
                a, b, k = ("e", v(sym("a0", H))), ("e", v(sym("a2", H))), ("e", v(kid))
                for at, xs in (("", (a, k, b)), ("[only]", (k,)), ("[first]", (k, a)), ("[second]", (a, k))):
                    if at and n != "FunctionCall":
                        continue
                    yield f"{n}.{f}{at}", hir.inst(P, H, n, "", **{f: v(SEQ(xs))})
                continue
            if n == "BinaryOp":
                for o in P.variants(cg.BO):
                    if o in ("Assign", "Comma"):
                        continue
                    yield f"{n}.{o}.{f}", hir.inst(P, H, n, "", op=v(cg.op(cg.BO, o)), **{f: v(kid)})
            elif n == "UnaryOp":
                for o in P.variants(cg.UO):
                    yield f"{n}.{o}.{f}", hir.inst(P, H, n, "", op=v(cg.op(cg.UO, o)), **{f: v(kid)})
            else:
                yield f"{n}.{f}", hir.inst(P, H, n, "", **{f: v(kid)})


INCDEC = ("PostIncrement", "PreIncrement", "PostDecrement", "PreDecrement")


def legal(pn, kn):
    """Combinations a C program can contain."""
    p = pn.split(".")
    if kn == "deref-var":
        kn = "deref"
    if p[0] in INCDEC or p[0] == "UnaryOp" and p[1] in INCDEC or "AddressOf" in p:
        return kn == "deref"            # needs an lvalue
    if p[0] == "FieldAccess":
        return kn in ("deref", "conditional")
    if p[0] in ("PointerFieldAccess", "ArrayIndex", "ArrayIndexAssignment", "SliceIndex", "Dereference") and p[-1] not in ("index", "value"):
        return kn in ("sum", "cast", "conditional", "deref")    # needs a pointer or array
    if p[0] == "StringMethodCall":
        return False                    # not produced from C source
    return True


def cast_text(ps):
    return isinstance(ps[-1], str) and " as i32" in ps[-1] and "as_bytes" in "".join(p for p in ps if isinstance(p, str))


def check(c, pn, par, kn, kid, reps, S, W):
    n = 0
    V = cg.gen_expr(c, par)
    for ps in rx.flat(V):
        for qs in filled(ps, kid, reps):
            try:
                e, _ = rx.parse_expr(qs)
            except rx.ParseError as ex:
                try:
                    rx.parse_expr(ps)
                except rx.ParseError:
                    c.count("templates left to the well-formedness property")
                    continue
                c.ob(f"group:{pn}:{kn}", False, f"with a {kn} operand the text of {pn} is not an expression any more: {rx.text(qs)[:300]} ({ex})", W, val=V if False else None)
                continue
            n += 1
            bad = uncovered(unparen(e), S, MARKS)
            c.ob(f"group:{pn}:{kn}", not bad, f"a {kn} operand of {pn} is emitted as: {rx.text(qs)[:400]}", W)
    return n


def stmt_parents(P, kid):
    for var in P.adts[cg.HS]["vars"]:
        for f, ty in var["f"]:
            if "HirExpression" not in ty or var["n"] == "Expression" or f in ("target", "object"):
                continue
            yield f"{var['n']}.{f}", hir.inst(P, cg.HS, var["n"], "", **{f: v(some(v(kid))) if "Option" in ty else v(kid)})


def check_stmt(c, pn, par, kn, kid, reps, S, W):
    n = 0
    for ps in rx.flat(cg.gen_stmt(c, par)):
        for qs in filled(ps, kid, reps):
            try:
                e = rx.parse_stmts(qs)
            except rx.ParseError as ex:
                try:
                    rx.parse_stmts(ps)
                except rx.ParseError:
                    c.count("templates left to the well-formedness property")
                    continue
                c.ob(f"group:{pn}:{kn}", False, f"with a {kn} operand the text of {pn} is not a statement any more: {rx.text(qs)[:300]} ({ex})", W)
                continue
            n += 1
            bad = uncovered(unparen(e), S, MARKS)
            c.ob(f"group:{pn}:{kn}", not bad, f"a {kn} as {pn} is emitted as: {rx.text(qs)[:400]}", W)
    return n


def item(c, it):
    kn, pn, par, stmt, kid = it
    W = c.where(c.P.fn("generate_expression_with_target_type"))
    if kn not in OWN:
        OWN[kn] = own(c, kid)
    reps, S = OWN[kn]
    r = reps
    if kn == "deref" or kn == "deref-var" and (stmt or pn.startswith("Dereference") or "AddressOf" in pn or "In" in pn or "Access" in pn or "Decrement" in pn):
        # the first character of a string is not an lvalue, pointer, structure or array
        r = [[ps for ps in rs if not cast_text(ps)] for rs in reps]
    n = (check_stmt if stmt else check)(c, pn, par, kn, kid, r, S, W)
    for _ in range(n):
        c.count("operand positions analysed")


OWN = {}


def run(c):
    P = c.P
    items = []
    for kn, kid in kids(P):
        items += [(kn, pn, par, False, kid) for pn, par in parents(P, kid) if legal(pn, kn)]
        items += [(kn, pn, par, True, kid) for pn, par in stmt_parents(P, kid) if legal(pn, kn)]
    ctx.par(c, items, item)
    c.floor("operand positions", c.counts.get("operand positions analysed", 0), 1000)
