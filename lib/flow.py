"""Control flow as automata. A program is a list of statements
  ("ev", name) ("if", c, A, B) ("while", c, A) ("do", A, c) ("loop", A) ("for", I, c|None, N, A)
  ("switch", c, [(labels, A)])  C: labels are values or "default", bodies fall through, break leaves
  ("match", c, [(labels, A)])   no fall-through, break belongs to the enclosing loop
  ("hswitch", c, [(labels, A)]) no fall-through, break leaves the switch
  ("break",) ("continue",) ("ret", name) ("block", A)
Events and the outcomes of conditions are observable; two programs agree when their automata are bisimilar."""


class Bad(Exception):
    pass


class Auto:
    def __init__(self, prog):
        self.n = []
        end = self.new(("end",))
        self.start = self.seq(prog, end, None, None)

    def new(self, x=None):
        self.n.append(x)
        return len(self.n) - 1

    def seq(self, ss, k, brk, cont):
        for s in reversed(ss):
            k = self.one(s, k, brk, cont)
        return k

    def one(self, s, k, brk, cont):
        o = s[0]
        if o == "ev":
            return self.new(("ev", s[1], k))
        if o == "ret":
            return self.new(("ev", ("ret", s[1]), self.new(("end",))))
        if o == "block":
            return self.seq(s[1], k, brk, cont)
        if o == "if":
            return self.new(("br", s[1], self.seq(s[2], k, brk, cont), self.seq(s[3] or [], k, brk, cont)))
        if o == "while":
            h = self.new()
            self.n[h] = ("br", s[1], self.seq(s[2], h, k, h), k)
            return h
        if o == "loop":
            h = self.new()
            self.n[h] = ("eps", self.seq(s[1], h, k, h))
            return h
        if o == "do":
            h = self.new()
            t = self.new()
            self.n[t] = ("br", s[2], h, k)
            self.n[h] = ("eps", self.seq(s[1], t, k, t))
            return h
        if o == "for":
            h = self.new()
            inc = self.seq(s[3], h, None, None)
            b = self.seq(s[4], inc, k, inc)
            self.n[h] = ("br", s[2], b, k) if s[2] is not None else ("eps", b)
            return self.seq(s[1], h, None, None)
        if o in ("switch", "match", "hswitch"):
            arms, dflt, nxt = {}, k, k
            for labels, body in reversed(s[2]):
                e = self.seq(body, nxt if o == "switch" else k, brk if o == "match" else k, cont)
                if o == "switch":
                    nxt = e
                for l in labels:
                    if l == "default":
                        dflt = e
                    else:
                        arms[l] = e
            return self.new(("sw", s[1], arms, dflt))
        if o == "break":
            if brk is None:
                raise Bad("break outside of a loop")
            return brk
        if o == "continue":
            if cont is None:
                raise Bad("continue outside of a loop")
            return cont
        raise Bad("unknown statement " + repr(s)[:80])

    def at(self, i):
        seen = set()
        while self.n[i][0] == "eps":
            if i in seen:
                return ("diverge",), i
            seen.add(i)
            i = self.n[i][1]
        return self.n[i], i


def differ(p, q):
    """None if the two programs behave alike, otherwise the shortest sequence of observations telling them apart."""
    A, C = Auto(p), Auto(q)
    todo, seen = [(A.start, C.start, ())], set()
    while todo:
        nt = []
        for i, j, tr in todo:
            x, i = A.at(i)
            y, j = C.at(j)
            if (i, j) in seen:
                continue
            seen.add((i, j))
            if x[0] != y[0]:
                return tr + (f"{brief(x)} / {brief(y)}",)
            if x[0] == "ev":
                if x[1] != y[1]:
                    return tr + (f"{brief(x)} / {brief(y)}",)
                nt.append((x[2], y[2], tr + (str(x[1]),)))
            elif x[0] == "br":
                if x[1] != y[1]:
                    return tr + (f"{brief(x)} / {brief(y)}",)
                nt.append((x[2], y[2], tr + (f"{x[1]}=yes",)))
                nt.append((x[3], y[3], tr + (f"{x[1]}=no",)))
            elif x[0] == "sw":
                if x[1] != y[1]:
                    return tr + (f"{brief(x)} / {brief(y)}",)
                for l in sorted(set(x[2]) | set(y[2]), key=str):
                    nt.append((x[2].get(l, x[3]), y[2].get(l, y[3]), tr + (f"{x[1]}={l}",)))
                nt.append((x[3], y[3], tr + (f"{x[1]}=other",)))
        todo = nt
    return None


def brief(x):
    return {"ev": lambda: f"does {x[1]}", "br": lambda: f"tests {x[1]}", "sw": lambda: f"selects by {x[1]}", "end": lambda: "ends", "diverge": lambda: "never ends"}[x[0]]()
