"""Shared by the rules on the code generator: which functions produce text for a nested construct, and how the
template language of one construct is computed."""
from absint import *
import hir
import rx

EXPR = ("generate_expression", "generate_expression_with_context", "generate_expression_with_target_type")
STMT = ("generate_statement", "generate_statement_for_function", "generate_statement_with_context")
TYPE = ("map_type", "map_sizeof_type")
OTHER = ("default_value_for_type", "infer_expression_type")
rx.CAT.update({n: "expr" for n in EXPR})
rx.CAT.update({n: "stmt" for n in STMT})
rx.CAT.update({n: "type" for n in TYPE})
rx.CAT["default_value_for_type"] = "expr"
HE, HS, HT = "decy_hir::HirExpression", "decy_hir::HirStatement", "decy_hir::HirType"
BO, UO = "decy_hir::BinaryOperator", "decy_hir::UnaryOperator"


def arg_of_type(body, *tys):
    """Name (or position) of the first parameter whose type mentions one of the given type names."""
    for i in range(body["args"]):
        ty = str(body["locals"][i + 1])
        if any(t in ty for t in tys):
            return i
    raise KeyError(f"{body['name']}: no parameter of type {tys}")


def pinned(body, pins):
    """Argument list with the parameters at the given positions pinned."""
    args = hir.args_of(body)
    for i, x in pins.items():
        args[i] = x if isinstance(x, frozenset) else v(x)
    return args


def typed(types):
    """on_call hook: the generator's type inference answers as given for the named operands (symbol -> HirType variant)."""
    def f(I, st, name, rec, args, site):
        if name.split("::")[-1] != "infer_expression_type":
            return None
        for s, t in types.items():
            if any(mentions(x, s) for x in args[1]) if len(args) > 1 else False:
                return [(st, v(some(v(T("adt", HT, t, ()))) if t else NONE))]
        return None
    return f


def gen_expr(c, expr, unroll=3, opaque=EXPR + STMT + TYPE + OTHER, target=None, types=None):
    """Template language of the text generated for the given expression value."""
    b = c.P.fn("generate_expression_with_target_type")
    I = c.interp(opaque=opaque, root=b["name"], unroll=unroll, on_call=typed(types) if types else None)
    pins = {arg_of_type(b, "HirExpression"): expr}
    if target is not None:
        pins[arg_of_type(b, "HirType>")] = target
    return runp(c, I, b, pins)


def runp(c, I, b, pins):
    V = frozenset()
    for _, x in I.run(b, pinned(b, pins)):
        V |= x
    c.done(I)
    return V


def gen_stmt(c, stmt, unroll=3, opaque=EXPR + STMT + TYPE + OTHER, ret=None):
    b = c.P.fn("generate_statement_with_context")
    I = c.interp(opaque=opaque, root=b["name"], unroll=unroll)
    pins = {arg_of_type(b, "HirStatement"): stmt}
    if ret is not None:
        pins[arg_of_type(b, "HirType>")] = ret
    return runp(c, I, b, pins)


def op(en, n):
    return T("adt", en, n, ())


def expr(P, var, pre="", **over):
    return hir.inst(P, HE, var, pre, **over)


def holes(ps):
    for p in ps:
        if isinstance(p, tuple) and p[0] == "h":
            yield p[1]


def tops(V):
    return any(mentions(t, TOP) for t in V)
