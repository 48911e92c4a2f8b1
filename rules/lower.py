"""Lowering (AST to HIR) as a homomorphism: every part of every construct arrives in the construct of the same name,
elements of lists one by one and in order. Used by the rules on completeness and on types."""
from absint import *
import cg
import hir
from p01 import eqadt, one, AST

E, SX, TY = AST + "Expression", AST + "Statement", AST + "Type"
FE, FS, FT = "decy_hir::HirExpression::from_ast_expression", "decy_hir::HirStatement::from_ast_statement", "decy_hir::HirType::from_ast_type"


class Lower:
    def __init__(self, c):
        self.c, self.P = c, c.P
        g = lambda s: c.P.fn(s)["name"]
        self.fe, self.fs, self.ft = g("HirExpression::from_ast_expression"), g("HirStatement::from_ast_statement"), g("HirType::from_ast_type")

    def call(self, f, x):
        return T("call", f, (v(x),))

    def run(self, name, val, opaque=None):
        b = self.P.bodies[name]
        I = self.c.interp(opaque=opaque if opaque is not None else (self.fe, self.fs, self.ft), root=name)
        V = cg.runp(self.c, I, b, {0: v(val)})
        return V

    def cases(self, name, ty, pre=""):
        """(label, input value, expected output value) for one field of the given AST type."""
        s = pre + name
        if ty.startswith("alloc::boxed::Box<"):
            return self.cases(name, ty[len("alloc::boxed::Box<"):-1], pre)
        if ty in (E, SX, TY):
            f = {E: self.fe, SX: self.fs, TY: self.ft}[ty]
            x = sym(s, ty)
            return [("", v(x), v(self.call(f, x)))]
        if ty == AST + "SwitchCase":
            out = []
            (l, a, b), = self.cases("value", E, pre)
            _, i, o = self.cases("body", f"alloc::vec::Vec<{SX}>", pre)[0]
            for lab, x, y in (("case", some(a), some(b)), ("default", NONE, NONE)):
                out.append((lab, v(T("adt", ty, "SwitchCase", (("value", v(x)), ("body", i)))), v(T("adt", "decy_hir::SwitchCase", "SwitchCase", (("value", v(y)), ("body", o))))))
            return out
        if ty.startswith("core::option::Option<"):
            r = [("some" + l, v(some(i)), v(some(o))) for l, i, o in self.cases(name, ty[len("core::option::Option<"):-1], pre)]
            return r + [("none", v(NONE), v(NONE))]
        if ty.startswith("alloc::vec::Vec<"):
            t = ty[len("alloc::vec::Vec<"):-1]
            el = [self.cases(name + str(i), t, pre) for i in range(3)]
            return [("three", v(SEQ(tuple(("e", x[0][1]) for x in el))), v(SEQ(tuple(("e", x[0][2]) for x in el))))] + \
                   ([("empty", v(SEQ(())), v(SEQ(())))])
        x = sym(s, ty)
        return [("", v(x), v(x))]

    def variants(self, enum):
        return self.P.adts[enum]["vars"]

    def homo(self, enum, out, fn, skip, prefix):
        n = 0
        names = {x["n"]: x for x in self.variants(out)}
        for x in self.variants(enum):
            if x["n"] in skip or x["n"] not in names:
                continue
            fields = [(f, self.cases(f, ty)) for f, ty in x["f"]]
            combos = [[]]
            for f, cs in fields:
                combos = [k + [(f,) + cs[0]] for k in combos]
            # vary one field at a time from the base case
            allc = [combos[0]]
            for i, (f, cs) in enumerate(fields):
                for alt in cs[1:]:
                    k = list(combos[0])
                    k[i] = (f,) + alt
                    allc.append(k)
            for k in allc:
                lab = ",".join(f"{f}={l}" for f, l, _, _ in k if l)
                val = T("adt", enum, x["n"], tuple((f, i) for f, _, i, _ in k))
                want = v(T("adt", out, x["n"], tuple((f, o) for f, _, _, o in k)))
                V = self.run(fn, val)
                n += 1
                self.c.ob(f"{prefix}:{x['n']}:{lab}", eqadt(V, want), f"{x['n']} ({lab}) is lowered to {show(V)[:500]}", self.c.where(fn), val=V)
        return n
