"""The program as dumped by the driver: bodies, type definitions, call graph."""
import glob, json, os
import facts


class Program:
    def __init__(self, crates=None):
        self.dir = facts.ensure()
        self.bodies, self.adts, self.statics, self.unsafe = {}, {}, [], []
        self.crate_of = {}
        for f in sorted(glob.glob(self.dir + "/*.json")):
            base = os.path.basename(f)[:-5]
            j = json.load(open(f))
            for b in j["bodies"]:
                b["crate"] = base
                self.bodies[b["name"]] = b
            for a in j["adts"]:
                self.adts[a["name"]] = a
            for s in j["statics"]:
                s["crate"] = base
                self.statics.append(s)
            for u in j["unsafe"]:
                u["crate"] = base
                self.unsafe.append(u)
        self._cg = None

    def fn(self, suffix, required=True):
        """The unique body whose path ends with `suffix` (at a `::` boundary)."""
        c = [n for n in self.bodies if (n == suffix or n.endswith("::" + suffix)) and "promoted[" not in n]
        if len(c) == 1:
            return self.bodies[c[0]]
        if required:
            raise KeyError(f"anchor {suffix}: {len(c)} candidates {c[:4]}")
        return None

    def adt(self, suffix):
        c = [n for n in self.adts if n == suffix or n.endswith("::" + suffix)]
        if len(c) != 1:
            raise KeyError(f"type {suffix}: {c}")
        return self.adts[c[0]]

    def variants(self, suffix):
        return [v["n"] for v in self.adt(suffix)["vars"]]

    def succ(self, body, i):
        t = body["bb"][i]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        return []

    def rpo(self, body):
        r = body.get("_rpo")
        if r is None:
            seen, order, stack = set(), [], [(0, iter(self.succ(body, 0)))]
            seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ(body, s))))
                        break
                else:
                    order.append(n)
                    stack.pop()
            order.reverse()
            r = {b: i for i, b in enumerate(order)}
            heads = set()
            for b in order:
                for s in self.succ(body, b):
                    if s in r and r[s] <= r[b]:
                        heads.add(s)
            body["_rpo"] = r
            body["_heads"] = heads
        return r

    def calls(self, body):
        """(block, callee record, args, dest, target, line) of every non-cleanup call."""
        for i, bb in enumerate(body["bb"]):
            if bb.get("cl"):
                continue
            t = bb["t"]
            if t[0] == "call":
                yield i, t

    def refs(self, body):
        """Every function path a body may transfer control to: callees, closures built, functions named."""
        out = set()

        def op(o):
            k = o.get("k")
            if k and "fn" in k:
                out.add(k.get("res") or k["fn"])
                for c in k.get("clos", ()):
                    out.add(c)
        for bb in body["bb"]:
            if bb.get("cl"):
                continue
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] in ("use", "repeat"):
                    op(r[1])
                elif r[0] in ("cast", "un"):
                    op(r[2])
                elif r[0] == "bin":
                    op(r[2]); op(r[3])
                elif r[0] == "agg":
                    for o in r[2]:
                        op(o)
                    if isinstance(r[1], dict) and "closure" in r[1]:
                        out.add(r[1]["closure"])
            t = bb["t"]
            if t[0] == "call":
                op(t[1])
                for a in t[2]:
                    op(a)
        return out

    def callgraph(self):
        if self._cg is None:
            self._cg = {n: self.refs(b) for n, b in self.bodies.items() if "promoted[" not in n}
        return self._cg

    def reach(self, roots):
        cg = self.callgraph()
        seen, st = set(), list(roots)
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            st.extend(x for x in cg.get(n, ()) if x not in seen)
        return seen
