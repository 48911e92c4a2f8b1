"""Template languages of generated Rust text: flattening of string values into token sequences with holes, and a
parser for the subset of Rust the generators emit.  A hole is a nonterminal: text produced elsewhere."""
import re
from absint import *


class ParseError(Exception):
    pass


def flat(V, limit=600):
    """All flattened alternatives of a string value: lists of pieces (literal text | ("h", term) | ("star", V) | ("jstar", V, sep)).
    When the product of alternatives exceeds `limit`, the alternatives of each hole are varied one hole at a time."""
    out = []
    for t in sorted(V, key=lambda x: x.k + show(x)[:60]):
        out.extend(flat1(t, limit))
    seen, res = set(), []
    for p in out:
        k = tuple(p)
        if k not in seen:
            seen.add(k)
            res.append(k)
    return res


_flat = {}


def flat1(t, limit):
    r = _flat.get((t, limit))
    if r is not None:
        return r
    if t.k != "str":
        r = [(("h", t),)]
    else:
        opts = []
        n = 1
        for p in t.a[0]:
            if isinstance(p, str):
                opts.append([(p,)])
            elif p[0] == "h":
                o = []
                for x in p[1]:
                    if x.k == "str":
                        o.extend(flat1(x, limit))
                    elif litstr(x) is not None:
                        o.append((litstr(x),))
                    else:
                        o.append((("h", x),))
                o = list(dict.fromkeys(o))
                opts.append(o)
                n *= max(1, len(o))
            else:
                opts.append([(p,)])
        r = []
        if n <= limit:
            def rec(i, acc):
                if i == len(opts):
                    r.append(merge(acc))
                    return
                for o in opts[i]:
                    rec(i + 1, acc + o)
            rec(0, ())
        else:
            base = [o[0] for o in opts]
            for i, o in enumerate(opts):
                for alt in (o if i == 0 or len(o) > 1 else []):
                    acc = ()
                    for j, b in enumerate(base):
                        acc += alt if j == i else b
                    r.append(merge(acc))
            r = list(dict.fromkeys(r)) or [merge(sum(base, ()))]
    _flat[(t, limit)] = r
    return r


def merge(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return tuple(out)


OPS = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", "..",
       "+", "-", "*", "/", "%", "^", "!", "&", "|", "=", "<", ">", "@", ".", ",", ";", ":", "#", "$", "?", "(", ")", "[", "]", "{", "}", "~"]
IDC = re.compile(r"[A-Za-z0-9_]")


def lex(pieces):
    """Tokens: (kind, value, spaced) kinds: id num str chr op hole rep comment."""
    # work on a list of units: characters and holes
    us = []
    for p in pieces:
        if isinstance(p, str):
            us.extend(p)
        else:
            us.append(p)
    toks, i, n = [], 0, len(us)
    comments = []
    prev_end = -1

    def ch(j):
        return us[j] if j < n and isinstance(us[j], str) else ""

    def emit(kind, val, start, end):
        nonlocal prev_end
        toks.append((kind, val, start != prev_end))
        prev_end = end
    while i < n:
        u = us[i]
        if isinstance(u, str):
            if u.isspace():
                i += 1
                continue
            if u == "/" and ch(i + 1) == "/":
                j = i
                while j < n and us[j] != "\n":
                    j += 1
                comments.append((len(toks), "".join(x if isinstance(x, str) else "\x00" for x in us[i:j])))
                i = j
                continue
            if u == "/" and ch(i + 1) == "*":
                j = i + 2
                while j < n and not (us[j] == "*" and ch(j + 1) == "/"):
                    j += 1
                if j >= n:
                    raise ParseError("unterminated comment")
                comments.append((len(toks), "".join(x if isinstance(x, str) else "\x00" for x in us[i:j + 2])))
                i = j + 2
                continue
            if u == '"' or (u == "b" and ch(i + 1) == '"') or (u == "c" and ch(i + 1) == '"'):
                j = i + (1 if u == '"' else 2)
                k = j
                while k < n and us[k] != '"':
                    k += 2 if us[k] == "\\" else 1
                if k >= n:
                    raise ParseError("unterminated string literal")
                emit("str", merge(tuple(us[j:k])), i, k + 1)
                i = k + 1
                continue
            if u == "'" or (u == "b" and ch(i + 1) == "'"):
                j = i + (1 if u == "'" else 2)
                # lifetime?
                if u == "'" and IDC.match(ch(j) or " ") and ch(j + 1) != "'":
                    k = j
                    while IDC.match(ch(k) or " "):
                        k += 1
                    emit("life", "".join(us[j:k]), i, k)
                    i = k
                    continue
                k = j
                while k < n and (us[k] != "'" or k == j):
                    k += 2 if us[k] == "\\" else 1
                if k >= n:
                    if u == "'" and j < n and not isinstance(us[j], str):
                        emit("life", us[j], i, j + 1)
                        i = j + 1
                        continue
                    raise ParseError("unterminated character literal")
                emit("chr", merge(tuple(us[j:k])), i, k + 1)
                i = k + 1
                continue
            if IDC.match(u):
                k = i
                while k < n and (IDC.match(us[k]) if isinstance(us[k], str) else identlike(us[k])):
                    k += 1
                if "".join(x for x in us[i:k] if isinstance(x, str)) == "r" and ch(k) == "#":
                    # raw identifier
                    k += 1
                    while k < n and (IDC.match(us[k]) if isinstance(us[k], str) else identlike(us[k])):
                        k += 1
                if u.isdigit() and ch(k) == "." and ch(k + 1).isdigit():
                    k += 1
                    while k < n and isinstance(us[k], str) and IDC.match(us[k]):
                        k += 1
                val = merge(tuple(us[i:k]))
                emit("num" if u.isdigit() else "id", val[0] if len(val) == 1 and isinstance(val[0], str) else val, i, k)
                i = k
                continue
            for o in OPS:
                if "".join(x if isinstance(x, str) else "\x01" for x in us[i:i + len(o)]) == o:
                    emit("op", o, i, i + len(o))
                    i += len(o)
                    break
            else:
                raise ParseError(f"stray character {u!r}")
            continue
        if u[0] == "h":
            if identlike(u):
                k = i
                while k < n and (IDC.match(us[k]) if isinstance(us[k], str) else identlike(us[k])):
                    k += 1
                if k > i + 1:
                    emit("id", merge(tuple(us[i:k])), i, k)
                    i = k
                    continue
            emit("hole", u[1], i, i + 1)
            i += 1
            continue
        emit("rep", u, i, i + 1)
        i += 1
    return toks, comments


CAT = {}


def category(t):
    """What kind of text a hole stands for."""
    if t.k == "call":
        n = short(t.a[0])
        c = CAT.get(n)
        if c:
            return c
        if n in ("get", "map::get", "index", "replace", "replacen", "trim", "to_uppercase", "to_lowercase", "strip_prefix", "strip_suffix", "trim_end_matches"):
            for x in t.a[1][0]:
                c = category(x)
                if c in ("expr", "stmt", "type"):
                    return c
        return "text"
    if t.k in ("fld", "part", "elem"):
        for x in t.a:
            if isinstance(x, Term):
                c = category(x)
                if c in ("expr", "stmt", "type"):
                    return c
        return "text"
    if t.k in ("bin", "un", "cast", "i", "fmt"):
        return "text"
    if t.k == "top":
        return "top"
    return "text"


def identlike(u):
    return isinstance(u, tuple) and u[0] == "h" and category(u[1]) == "text"


BIN = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "|": 4, "^": 5, "&": 6, "<<": 7, ">>": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}
ASG = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="}
UN, AS, POST = 11, 10, 12


class P:
    def __init__(self, pieces):
        self.t, self.comments = lex(pieces)
        self.i = 0
        self.unsafe = []     # (token index of `unsafe {`, has SAFETY comment before)

    def pk(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ("eof", "", True)

    def isop(self, o, k=0):
        x = self.pk(k)
        return x[0] == "op" and x[1] == o

    def isid(self, o, k=0):
        x = self.pk(k)
        return x[0] == "id" and x[1] == o

    def eat(self, o):
        if not self.isop(o):
            raise ParseError(f"expected `{o}` found {self.pk()[1]!r} at token {self.i}: {self.near()}")
        self.i += 1

    def near(self):
        return " ".join(str(x[1]) if not isinstance(x[1], Term) else "<" + show(x[1])[:30] + ">" for x in self.t[max(0, self.i - 4):self.i + 3])

    # types
    def ty(self):
        x = self.pk()
        if x[0] == "hole":
            self.i += 1
            return ("tyhole", x[1])
        if x[0] == "op" and x[1] == "*":
            self.i += 1
            m = self.pk()
            if m[0] == "id" and m[1] in ("mut", "const"):
                self.i += 1
                return ("ptr", m[1], self.ty())
            raise ParseError("raw pointer type without mut/const")
        if x[0] == "op" and x[1] in ("&", "&&"):
            self.i += 1
            life = None
            if self.pk()[0] == "life":
                life = self.pk()[1]
                self.i += 1
            m = False
            if self.isid("mut"):
                self.i += 1
                m = True
            return ("ref", m, self.ty(), life)
        if self.isop("["):
            self.i += 1
            e = self.ty()
            if self.isop(";"):
                self.i += 1
                n = self.expr()
                self.eat("]")
                return ("arrty", e, n)
            self.eat("]")
            return ("slice", e)
        if self.isop("("):
            self.i += 1
            ts = []
            while not self.isop(")"):
                ts.append(self.ty())
                if self.isop(","):
                    self.i += 1
            self.eat(")")
            return ("tupty", tuple(ts))
        if x[0] == "id":
            if x[1] in ("dyn", "impl"):
                self.i += 1
                return ("dyn", self.ty())
            if x[1] in ("unsafe", "extern"):
                self.i += 1
                if self.pk()[0] == "str":
                    self.i += 1
                return self.ty()
            if x[1] == "fn":
                self.i += 1
                self.eat("(")
                while not self.isop(")"):
                    self.ty()
                    if self.isop(","):
                        self.i += 1
                self.eat(")")
                if self.isop("->"):
                    self.i += 1
                    self.ty()
                return ("fnty",)
            segs = [x[1]]
            self.i += 1
            args = ()
            while True:
                if self.isop("::"):
                    self.i += 1
                    if self.pk()[0] in ("id", "hole"):
                        segs.append(self.pk()[1])
                        self.i += 1
                        continue
                if self.isop("<"):
                    args = self.generics()
                    continue
                break
            return ("ty", tuple(segs), args)
        raise ParseError(f"expected a type, found {x[1]!r}: {self.near()}")

    def generics(self):
        self.eat("<")
        a = []
        while True:
            if self.isop(">"):
                self.i += 1
                break
            if self.isop(">>"):
                # split
                s = self.t[self.i]
                self.t[self.i] = ("op", ">", s[2])
                break
            if self.pk()[0] == "life":
                a.append(("life", self.pk()[1]))
                self.i += 1
            elif self.pk()[0] == "rep":
                a.append(("rep", self.pk()[1]))
                self.i += 1
            else:
                a.append(self.ty())
            if self.isop(","):
                self.i += 1
        return tuple(a)

    # expressions
    def expr(self, bp=0, nostruct=False):
        return self.assign(nostruct)

    def assign(self, ns=False):
        l = self.rng(ns)
        x = self.pk()
        if x[0] == "op" and x[1] in ASG:
            self.i += 1
            return ("assign", x[1], l, self.assign(ns))
        return l

    def rng(self, ns):
        if self.isop("..") or self.isop("..="):
            self.i += 1
            x = self.pk()
            if x[0] == "op" and x[1] in (")", "]", "}", ",", ";"):
                return ("range", None, None)
            return ("range", None, self.bin(0, ns))
        l = self.bin(0, ns)
        if self.isop("..") or self.isop("..="):
            self.i += 1
            x = self.pk()
            if x[0] == "eof" or x[0] == "op" and x[1] in (")", "]", "}", ",", ";", "{"):
                return ("range", l, None)
            return ("range", l, self.bin(0, ns))
        return l

    def bin(self, bp, ns):
        l = self.unary(ns)
        while True:
            x = self.pk()
            if x[0] == "id" and x[1] == "as":
                if AS < bp:
                    break
                self.i += 1
                l = ("cast", l, self.ty())
                if self.isop("<") or self.isop("<<"):
                    raise ParseError("`<` after `as` type opens generic arguments")
                continue
            if x[0] == "op" and x[1] in BIN:
                p = BIN[x[1]]
                if p <= bp and not (p == bp == 0):
                    break
                self.i += 1
                r = self.bin(p, ns)
                if p == 3 and isinstance(l, tuple) and l[0] == "bin" and BIN[l[1]] == 3:
                    raise ParseError("comparison operators cannot be chained")
                l = ("bin", x[1], l, r)
                continue
            break
        return l

    def unary(self, ns):
        x = self.pk()
        if x[0] == "op" and x[1] in ("-", "!", "*"):
            self.i += 1
            return ("un", x[1], self.unary(ns))
        if x[0] == "op" and x[1] in ("&", "&&"):
            self.i += 1
            if self.isid("mut"):
                self.i += 1
                return ("un", "&mut", self.unary(ns))
            if self.isid("raw"):
                self.i += 1
                self.i += 1
                return ("un", "&raw", self.unary(ns))
            return ("un", x[1], self.unary(ns))
        return self.postfix(self.primary(ns), ns)

    def args(self, close=")"):
        a = []
        while not self.isop(close):
            if self.pk()[0] == "rep":
                a.append(("rep", self.pk()[1]))
                self.i += 1
            else:
                a.append(self.expr())
            if self.isop(","):
                self.i += 1
            elif not self.isop(close) and self.pk()[0] != "rep":
                raise ParseError(f"expected `,` or `{close}` in list: {self.near()}")
        self.eat(close)
        return tuple(a)

    def postfix(self, e, ns):
        while True:
            x = self.pk()
            if x[0] == "op" and x[1] == ".":
                y = self.pk(1)
                if y[0] == "rep":
                    self.i += 2
                    e = ("field", e, y[1])
                    continue
                if y[0] == "num" or y[0] == "id" or y[0] == "hole":
                    self.i += 2
                    if self.isop("::") and self.isop("<", 1):
                        self.i += 1
                        self.generics()
                    if self.isop("("):
                        self.i += 1
                        e = ("mcall", e, y[1], self.args())
                    else:
                        e = ("field", e, y[1])
                    continue
                raise ParseError(f"bad member access: {self.near()}")
            if x[0] == "op" and x[1] == "(" and e[0] not in ("block", "if", "match", "lit"):
                self.i += 1
                e = ("call", e, self.args())
                continue
            if x[0] == "op" and x[1] == "[" and e[0] not in ("block", "if", "match"):
                self.i += 1
                ix = self.expr()
                self.eat("]")
                e = ("index", e, ix)
                continue
            if x[0] == "op" and x[1] == "?":
                self.i += 1
                e = ("try", e)
                continue
            if x[0] == "rep" and x[1][0] == "star" and all(f and isinstance(f[0], str) and f[0].startswith(".") for f in flat(x[1][1])):
                self.i += 1
                e = ("chain", e, x[1])
                continue
            return e

    def primary(self, ns):
        x = self.pk()
        k, val = x[0], x[1]
        if k == "hole":
            if self.isop("::", 1) and not category(val) == "expr":
                return self.path(ns)
            if self.isop("{", 1) and not ns and category(val) == "text":
                self.i += 1
                if self.structish():
                    self.i -= 1
                    return self.path(ns)
                self.i -= 1
            self.i += 1
            return ("hole", val)
        if k == "num":
            self.i += 1
            return ("lit", val)
        if k in ("str", "chr"):
            self.i += 1
            return ("lit" if k == "chr" else "strlit", val)
        if k == "life":
            self.i += 1
            if self.isop(":"):
                self.i += 1
                return self.primary(ns)
            raise ParseError("label without loop")
        if k == "op":
            if val == "(":
                self.i += 1
                if self.isop(")"):
                    self.i += 1
                    return ("tuple", ())
                e = self.expr()
                if self.isop(","):
                    es = [e]
                    while self.isop(","):
                        self.i += 1
                        if self.isop(")"):
                            break
                        es.append(self.expr())
                    self.eat(")")
                    return ("tuple", tuple(es))
                self.eat(")")
                return ("paren", e)
            if val == "[":
                self.i += 1
                if self.isop("]"):
                    self.i += 1
                    return ("array", ())
                if self.pk()[0] == "rep":
                    return ("array", self.args("]"))
                e = self.expr()
                if self.isop(";"):
                    self.i += 1
                    n = self.expr()
                    self.eat("]")
                    return ("repeat", e, n)
                if self.isop(","):
                    self.i += 1
                    return ("array", (e,) + self.args("]"))
                self.eat("]")
                return ("array", (e,))
            if val == "{":
                return self.block("")
            if val in ("|", "||"):
                return self.closure()
            raise ParseError(f"unexpected `{val}`: {self.near()}")
        if k == "rep":
            self.i += 1
            return ("rep", val)
        if k != "id":
            raise ParseError(f"unexpected end of text: {self.near()}")
        if val == "unsafe":
            if self.isop("{", 1):
                self.unsafe.append(self.i)
                self.i += 1
                return self.block("unsafe")
        if val == "move":
            self.i += 1
            return self.closure()
        if val == "if":
            return self.if_()
        if val == "match":
            self.i += 1
            e = self.expr(nostruct=True)
            self.eat("{")
            arms = []
            while not self.isop("}"):
                if self.pk()[0] == "eof":
                    raise ParseError("unterminated match")
                if self.pk()[0] == "rep":
                    arms.append(("rep", self.pk()[1]))
                    self.i += 1
                    continue
                pat = [self.pat()]
                while self.isop("|"):
                    self.i += 1
                    pat.append(self.pat())
                g = None
                if self.isid("if"):
                    self.i += 1
                    g = self.expr()
                self.eat("=>")
                b = self.expr()
                if self.isop(","):
                    self.i += 1
                elif b[0] != "block" and not self.isop("}"):
                    raise ParseError("match arm without separator")
                arms.append((tuple(pat), g, b))
            self.eat("}")
            return ("match", e, tuple(arms))
        if val == "while":
            self.i += 1
            if self.isid("let"):
                self.i += 1
                self.pat()
                self.eat("=")
            c = self.expr(nostruct=True)
            return ("while", c, self.block(""))
        if val == "loop":
            self.i += 1
            return ("loop", self.block(""))
        if val == "for":
            self.i += 1
            p = self.pat()
            if not self.isid("in"):
                raise ParseError("for without in")
            self.i += 1
            e = self.expr(nostruct=True)
            return ("for", p, e, self.block(""))
        if val in ("return", "break"):
            self.i += 1
            y = self.pk()
            if y[0] == "eof" or y[0] == "op" and y[1] in (";", "}", ",", ")"):
                return (val, None)
            return (val, self.expr())
        if val == "continue":
            self.i += 1
            return ("continue",)
        return self.path(ns)

    def path(self, ns):
        segs = [self.pk()[1]]
        self.i += 1
        while self.isop("::"):
            self.i += 1
            if self.isop("<"):
                self.generics()
                continue
            y = self.pk()
            if y[0] not in ("id", "hole"):
                raise ParseError(f"bad path: {self.near()}")
            segs.append(y[1])
            self.i += 1
        if self.isop("!") and self.pk(1)[0] == "op" and self.pk(1)[1] in ("(", "[", "{") and not self.pk()[2]:
            self.i += 1
            return self.macro(segs[-1])
        if self.isop("{") and not ns and self.structish():
            self.i += 1
            fs = []
            while not self.isop("}"):
                y = self.pk()
                if y[0] == "rep":
                    fs.append(("rep", y[1]))
                    self.i += 1
                    if self.isop(","):
                        self.i += 1
                    continue
                if self.isop(".."):
                    self.i += 1
                    fs.append(("..", self.expr()))
                    continue
                if y[0] not in ("id", "hole"):
                    raise ParseError(f"bad struct literal: {self.near()}")
                self.i += 1
                if self.isop(":"):
                    self.i += 1
                    fs.append((y[1], self.expr()))
                else:
                    fs.append((y[1], None))
                if self.isop(","):
                    self.i += 1
            self.eat("}")
            return ("struct", tuple(segs), tuple(fs))
        return ("path", tuple(segs))

    def structish(self):
        a, b = self.pk(1), self.pk(2)
        if a[0] == "op" and a[1] in ("}", ".."):
            return True
        if a[0] == "rep":
            return True
        return a[0] in ("id", "hole") and b[0] == "op" and b[1] in (":", ",")

    def pat(self):
        x = self.pk()
        if x[0] == "op" and x[1] == "-":
            self.i += 1
            y = self.pk()
            self.i += 1
            return ("pat", "-", y[1])
        if x[0] in ("num", "chr", "str", "hole", "rep"):
            self.i += 1
            if self.isop("..=") or self.isop(".."):
                self.i += 1
                self.i += 1
            return ("pathole" if x[0] == "hole" else "pat", x[1])
        if x[0] == "op" and x[1] == "&":
            self.i += 1
            return self.pat()
        if x[0] == "op" and x[1] == "(":
            self.i += 1
            ps = []
            while not self.isop(")"):
                ps.append(self.pat())
                if self.isop(","):
                    self.i += 1
            self.eat(")")
            return ("pattup", tuple(ps))
        if x[0] == "id":
            if x[1] in ("ref", "mut"):
                self.i += 1
                return self.pat()
            self.i += 1
            segs = [x[1]]
            while self.isop("::"):
                self.i += 1
                segs.append(self.pk()[1])
                self.i += 1
            if self.isop("("):
                self.i += 1
                ps = []
                while not self.isop(")"):
                    ps.append(self.pat())
                    if self.isop(","):
                        self.i += 1
                self.eat(")")
                return ("patctor", tuple(segs), tuple(ps))
            return ("pat", tuple(segs))
        raise ParseError(f"bad pattern: {self.near()}")

    def closure(self):
        if self.isop("||"):
            self.i += 1
            ps = ()
        else:
            self.eat("|")
            ps = []
            while not self.isop("|"):
                ps.append(self.pat())
                if self.isop(":"):
                    self.i += 1
                    self.ty()
                if self.isop(","):
                    self.i += 1
            self.eat("|")
        if self.isop("->"):
            self.i += 1
            self.ty()
        return ("closure", tuple(ps), self.expr())

    def macro(self, name):
        o = self.pk()[1]
        self.i += 1
        c = {"(": ")", "[": "]", "{": "}"}[o]
        if name == "vec" or name == "matches":
            if self.isop(c):
                self.i += 1
                return ("macro", name, ())
            if self.pk()[0] == "rep":
                return ("macro", name, self.args(c))
            e = self.expr()
            if self.isop(";"):
                self.i += 1
                n = self.expr()
                self.eat(c)
                return ("macrorep", name, e, n)
            rest = ()
            if self.isop(","):
                self.i += 1
                rest = self.args(c)
            else:
                self.eat(c)
            return ("macro", name, (e,) + rest)
        return ("macro", name, self.args(c))

    def if_(self):
        self.i += 1
        pats = None
        if self.isid("let"):
            self.i += 1
            pats = self.pat()
            self.eat("=")
        c = self.expr(nostruct=True)
        a = self.block("")
        b = None
        if self.isid("else"):
            self.i += 1
            if self.isid("if"):
                b = self.if_()
            else:
                b = self.block("")
        return ("if", c if pats is None else ("let?", pats, c), a, b)

    def block(self, kind):
        self.eat("{")
        st, tail = self.stmts("}")
        self.eat("}")
        return ("block", kind, st, tail)

    BLOCKY = ("block", "if", "match", "while", "loop", "for")

    def stmts(self, close):
        out = []
        while True:
            x = self.pk()
            if x[0] == "eof" or (x[0] == "op" and x[1] == close):
                return tuple(out), None
            if x[0] == "op" and x[1] == ";":
                self.i += 1
                continue
            if x[0] == "op" and x[1] == "#":
                # attribute
                self.i += 1
                if self.isop("!"):
                    self.i += 1
                self.eat("[")
                d = 1
                while d:
                    y = self.pk()
                    if y[0] == "eof":
                        raise ParseError("unterminated attribute")
                    d += (y[0] == "op" and y[1] == "[") - (y[0] == "op" and y[1] == "]")
                    self.i += 1
                continue
            if x[0] == "rep":
                out.append(("rep", x[1]))
                self.i += 1
                continue
            if x[0] == "hole" and category(x[1]) in ("stmt", "item"):
                out.append(("stmthole", x[1]))
                self.i += 1
                continue
            if x[0] == "id" and x[1] == "let":
                self.i += 1
                mut = self.isid("mut")
                p = self.pat()
                ty = None
                if self.isop(":"):
                    self.i += 1
                    ty = self.ty()
                e = None
                if self.isop("="):
                    self.i += 1
                    e = self.expr()
                if self.isid("else"):
                    self.i += 1
                    self.block("")
                self.eat(";")
                out.append(("let", mut, p, ty, e))
                continue
            if x[0] == "id" and x[1] in ITEMKW and self.item_start():
                out.append(self.item())
                continue
            e = self.expr()
            if self.isop(";"):
                self.i += 1
                out.append(("expr", e))
                continue
            y = self.pk()
            if y[0] == "eof" or (y[0] == "op" and y[1] == close):
                return tuple(out), e
            if e[0] in self.BLOCKY or e[0] == "macro":
                out.append(("expr", e))
                continue
            if e[0] == "hole" and category(e[1]) in ("top", "text"):
                out.append(("expr", e))
                continue
            raise ParseError(f"expected `;`: {self.near()}")

    # items (structure only)
    def item_start(self):
        x = self.pk()
        if x[1] == "unsafe":
            return self.isid("fn", 1) or self.isid("impl", 1) or self.isid("extern", 1)
        if x[1] == "const":
            return True
        return True

    def item(self):
        head = []
        while self.pk()[0] == "id" and self.pk()[1] in ("pub", "unsafe", "const", "extern", "async"):
            head.append(self.pk()[1])
            if self.pk()[1] == "const" and not self.isid("fn", 1):
                break
            self.i += 1
            if head[-1] == "pub" and self.isop("("):
                while not self.isop(")"):
                    self.i += 1
                self.i += 1
            if head[-1] == "extern" and self.pk()[0] == "str":
                self.i += 1
        x = self.pk()
        if x[0] == "op" and x[1] == "{" and "extern" in head:
            b = self.items_block()
            return ("item", "extern", tuple(head), None, b)
        if x[0] != "id":
            raise ParseError(f"bad item: {self.near()}")
        kw = x[1]
        self.i += 1
        if kw == "fn":
            name = self.pk()[1]
            self.i += 1
            gen = ()
            if self.isop("<"):
                gen = self.generics_decl()
            self.eat("(")
            ps = []
            while not self.isop(")"):
                if self.pk()[0] == "eof":
                    raise ParseError("unterminated parameter list")
                if self.pk()[0] == "rep":
                    ps.append(("rep", self.pk()[1]))
                    self.i += 1
                elif self.isop("&"):
                    ps.append(("self", self.ty()))
                elif self.pk()[0] == "hole" and (self.isop(",", 1) or self.isop(")", 1)):
                    ps.append(("paramhole", self.pk()[1]))
                    self.i += 1
                else:
                    p = self.pat()
                    if self.isop(":"):
                        self.i += 1
                        ps.append((p, self.ty()))
                    else:
                        ps.append((p, None))
                if self.isop(","):
                    self.i += 1
            self.eat(")")
            ret = None
            if self.isop("->"):
                self.i += 1
                ret = self.ty()
            if self.isid("where"):
                while not self.isop("{"):
                    self.i += 1
            if self.pk()[0] == "hole" and category(self.pk()[1]) == "text":
                raise ParseError("text after signature")
            if self.isop("{"):
                b = self.block("")
                return ("item", "fn", tuple(head), name, (tuple(ps), ret, b))
            self.eat(";") if not self.pk()[0] == "eof" else None
            return ("item", "fn", tuple(head), name, (tuple(ps), ret, None))
        if kw in ("struct", "enum", "union", "mod", "trait"):
            name = self.pk()[1]
            self.i += 1
            if self.isop("<"):
                self.generics_decl()
            if self.isop(";"):
                self.i += 1
                return ("item", kw, tuple(head), name, None)
            if self.isop("("):
                self.i += 1
                while not self.isop(")"):
                    if self.isid("pub"):
                        self.i += 1
                    self.ty()
                    if self.isop(","):
                        self.i += 1
                self.eat(")")
                self.eat(";")
                return ("item", kw, tuple(head), name, None)
            if kw in ("mod", "trait"):
                return ("item", kw, tuple(head), name, self.items_block())
            self.eat("{")
            fs = []
            while not self.isop("}"):
                y = self.pk()
                if y[0] == "eof":
                    raise ParseError("unterminated definition")
                if y[0] == "rep":
                    fs.append(("rep", y[1]))
                    self.i += 1
                    continue
                if y[0] == "op" and y[1] == "#":
                    self.i += 1
                    self.skip_bracket()
                    continue
                if self.isid("pub"):
                    self.i += 1
                nm = self.pk()
                if nm[0] not in ("id", "hole"):
                    raise ParseError(f"bad field: {self.near()}")
                self.i += 1
                if kw != "enum":
                    self.eat(":")
                    fs.append((nm[1], self.ty()))
                elif self.isop("="):
                    self.i += 1
                    fs.append((nm[1], self.expr()))
                elif self.isop("("):
                    self.i += 1
                    ts = []
                    while not self.isop(")"):
                        ts.append(self.ty())
                        if self.isop(","):
                            self.i += 1
                    self.eat(")")
                    fs.append((nm[1], ("variant", tuple(ts))))
                elif self.isop("{"):
                    self.skip_brace()
                    fs.append((nm[1], ("variant",)))
                else:
                    fs.append((nm[1], None))
                if self.isop(","):
                    self.i += 1
                elif not self.isop("}") and self.pk()[0] != "rep":
                    raise ParseError(f"expected `,` between fields: {self.near()}")
            self.eat("}")
            return ("item", kw, tuple(head), name, tuple(fs))
        if kw == "impl":
            if self.isop("<"):
                self.generics_decl()
            a = self.ty()
            tr = None
            if self.isid("for"):
                self.i += 1
                tr, a = a, self.ty()
            return ("item", "impl", tuple(head), (tr, a), self.items_block())
        if kw in ("static", "const", "type"):
            mut = self.isid("mut")
            if mut:
                self.i += 1
            name = self.pk()[1]
            self.i += 1
            if self.isop("<"):
                self.generics_decl()
            ty = None
            if self.isop(":"):
                self.i += 1
                ty = self.ty()
            e = None
            if self.isop("="):
                self.i += 1
                e = self.ty() if kw == "type" else self.expr()
            self.eat(";")
            return ("item", kw, tuple(head) + (("mut",) if mut else ()), name, (ty, e))
        if kw == "use":
            while not self.isop(";"):
                if self.pk()[0] == "eof":
                    raise ParseError("unterminated use")
                self.i += 1
            self.i += 1
            return ("item", "use", (), None, None)
        raise ParseError(f"unknown item {kw!r}: {self.near()}")

    def skip_bracket(self):
        self.eat("[")
        d = 1
        while d:
            y = self.pk()
            if y[0] == "eof":
                raise ParseError("unterminated attribute")
            d += (y[0] == "op" and y[1] == "[") - (y[0] == "op" and y[1] == "]")
            self.i += 1

    def skip_brace(self):
        self.eat("{")
        d = 1
        while d:
            y = self.pk()
            if y[0] == "eof":
                raise ParseError("unterminated brace")
            d += (y[0] == "op" and y[1] == "{") - (y[0] == "op" and y[1] == "}")
            self.i += 1

    def generics_decl(self):
        self.eat("<")
        d = 1
        out = []
        while d:
            y = self.pk()
            if y[0] == "eof":
                raise ParseError("unterminated generics")
            d += (y[0] == "op" and y[1] == "<") - (y[0] == "op" and y[1] == ">")
            out.append(y[1])
            self.i += 1
        return tuple(out)

    def items_block(self):
        self.eat("{")
        st, tail = self.stmts("}")
        if tail is not None:
            if tail[0] != "hole":
                raise ParseError("expression in item position")
            st = st + (("stmthole", tail[1]),)
        self.eat("}")
        return st


ITEMKW = {"fn", "pub", "struct", "enum", "impl", "static", "const", "type", "use", "mod", "extern", "trait", "union", "unsafe"}


def parse_expr(pieces):
    p = P(pieces)
    e = p.expr()
    if p.pk()[0] != "eof":
        raise ParseError(f"text after expression: {p.near()}")
    return e, p


def parse_stmts(pieces):
    p = P(pieces)
    st, tail = p.stmts("\x00")
    if p.pk()[0] != "eof":
        raise ParseError(f"unbalanced: {p.near()}")
    return st, tail, p


def walk(n):
    """All nodes of a parsed tree, pre-order."""
    if isinstance(n, tuple):
        if n and isinstance(n[0], str):
            yield n
        for x in n:
            if isinstance(x, tuple):
                yield from walk(x)


def text(ps):
    return "".join(p if isinstance(p, str) else "⟨" + show(p[1])[:70] + "⟩" if p[0] == "h" else show(p)[:90] for p in ps)


def strip(e):
    """Removes parentheses, casts and unsafe/plain blocks around a single expression."""
    while True:
        if e[0] in ("paren", "cast"):
            e = e[1]
        elif e[0] == "block" and not e[2] and e[3] is not None:
            e = e[3]
        else:
            return e
