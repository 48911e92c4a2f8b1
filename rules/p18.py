"""P18: a visitor callback reads its client data as the type that was passed to it, and the data is still alive then.
Flow analysis of untyped pointers over the MIR of all crates: every pointer-to-void value is followed from the typed
pointer it was made from, through copies, calls and libclang's visitor registration, to the casts that give it a type."""
LEVEL = "other"
ASSUMPTIONS = ["libclang calls a visitor synchronously, with the client data given at registration",
               "a function pointer chosen at run time (not a named function at the registration) is not followed"]
VOID = "core::ffi::c_void"
REG = {"clang_visitChildren": (1, 2, 2), "clang_visitChildrenWithBlock": None, "clang_Type_visitFields": (1, 2, 1),
       "clang_findReferencesInFile": None, "clang_getInclusions": (1, 2, 3)}


def pointee(ty):
    ty = str(ty).strip()
    for p in ("*mut ", "*const ", "&mut ", "&"):
        if ty.startswith(p):
            return ty[len(p):].strip()
    return None


def same(P, a, b):
    """Same type, or two structures the language lays out identically (C layout, same field types in the same order)."""
    if a == b:
        return True
    x, y = P.adts.get(a), P.adts.get(b)
    if not x or not y or x["kind"] != "Struct" or y["kind"] != "Struct" or not (x.get("reprc") and y.get("reprc")):
        return False
    fx, fy = x["vars"][0]["f"], y["vars"][0]["f"]
    return [n for n, _ in fx] == [n for n, _ in fy] and all(same(P, s, t) for (_, s), (_, t) in zip(fx, fy))


def run(c):
    P = c.P
    flows, src, sinks = {}, {}, []
    nsite = 0
    unresolved = []
    for n, b in P.bodies.items():
        if "promoted[" in n or b["crate"].startswith("decy_") and "parser" not in b["crate"] and VOID not in str(b["locals"]):
            continue
        if VOID not in str(b["locals"]):
            continue
        L = b["locals"]
        fnof = {}
        for bb in b["bb"]:
            if bb.get("cl"):
                continue
            for s in bb["s"]:
                if s[0] != "=" or len(s[1]) != 1:
                    continue
                d, r = s[1][0], s[2]
                if r[0] == "use":
                    p = r[1].get("c") or r[1].get("m")
                    if p and len(p) == 1:
                        flows.setdefault((n, p[0]), set()).add((n, d))
                        if p[0] in fnof:
                            fnof[d] = fnof[p[0]]
                elif r[0] == "cast":
                    o = r[2]
                    k = o.get("k")
                    if k and "fn" in k:
                        fnof[d] = k.get("res") or k["fn"]
                        continue
                    p = o.get("c") or o.get("m")
                    if not p or len(p) != 1:
                        continue
                    a, t = pointee(L[p[0]]), pointee(r[3])
                    if t == VOID and a == VOID:
                        flows.setdefault((n, p[0]), set()).add((n, d))
                    elif t == VOID and a:
                        src.setdefault((n, d), set()).add((a, s[3]))
                    elif a == VOID and t:
                        sinks.append((n, p[0], t, s[3]))
        for i, t in P.calls(b):
            k = t[1].get("k") or {}
            full = k.get("res") or k.get("fn") or ""
            name = full.split("::")[-1]
            if name in REG and "clang" in full:
                nsite += 1
                spec = REG[name]
                cb = t[2][spec[0]]
                p = cb.get("c") or cb.get("m")
                f = fnof.get(p[0]) if p else (cb.get("k") or {}).get("res") or (cb.get("k") or {}).get("fn")
                a = t[2][spec[1]]
                q = a.get("c") or a.get("m")
                if f is None or f not in P.bodies or not q:
                    unresolved.append((n, t[5]))
                    continue
                c.ob(f"registered:{n}", True, rule="visitor registrations followed into their callback")
                flows.setdefault((n, q[0]), set()).add((f, spec[2] + 1))
                # signature of the callback: parameter positions
            elif full in P.bodies:
                for j, a in enumerate(t[2]):
                    q = a.get("c") or a.get("m")
                    if q and len(q) == 1 and pointee(L[q[0]]) == VOID:
                        flows.setdefault((n, q[0]), set()).add((full, j + 1))
            elif name == "cast" and "ptr" in full and t[2]:
                q = t[2][0].get("c") or t[2][0].get("m")
                if q and len(q) == 1:
                    a, d = pointee(L[q[0]]), pointee(L[t[3][0]])
                    if a == VOID and d == VOID:
                        flows.setdefault((n, q[0]), set()).add((n, t[3][0]))
                    elif d == VOID and a:
                        src.setdefault((n, t[3][0]), set()).add((a, t[5]))
                    elif a == VOID and d:
                        sinks.append((n, q[0], d, t[5]))
        dangling(c, P, n, b)
    # propagate the types of the sources along the flows
    at = {k: {(t, k[0], l) for t, l in x} for k, x in src.items()}
    work = list(at)
    while work:
        k = work.pop()
        for d in flows.get(k, ()):
            new = at[k] - at.setdefault(d, set())
            if new:
                at[d] |= new
                work.append(d)
    ns = 0
    for n, l, t, line in sinks:
        ts = at.get((n, l), set())
        for st, fn, ln in ts:
            ns += 1
            c.ob(f"client-data:{n.split('::')[-1]}:from:{fn.split('::')[-1]}", same(P, st, t),
                 f"{n} (line {line}) reads its client data as {t}, but {fn} (line {ln}) passes a {st}", c.where(P.bodies[n]))
    c.floor("visitor registrations", nsite, 20)
    c.floor("typed reads of client data checked", ns, 20)
    c.count("registrations with a callback chosen at run time (not followed)", len(unresolved))


def dangling(c, P, n, b):
    """The variable a client-data pointer points to is neither moved away nor out of scope when the visitor runs."""
    reg = [i for i, t in P.calls(b) if ((t[1].get("k") or {}).get("fn") or "").split("::")[-1] in REG]
    if not reg:
        return
    init = {}
    states = {0: (frozenset(), frozenset())}      # (pointer local, target local) pairs, dead targets
    work = [0]
    while work:
        i = work.pop()
        pts, dead = states[i]
        pts, dead = set(pts), set(dead)
        bb = b["bb"][i]

        def moved(o):
            if "m" in o and len(o["m"]) == 1:
                dead.add(o["m"][0])
        for s in bb["s"]:
            if s[0] == "dead":
                dead.add(s[1])
            elif s[0] == "=":
                d, r = s[1], s[2]
                if r[0] in ("use", "cast", "un"):
                    o = r[1] if r[0] == "use" else r[2]
                    p = o.get("c") or o.get("m")
                    new = {(d[0], y) for x, y in pts if p and x == p[0]} if len(d) == 1 else set()
                    if not (p and any(x == p[0] for x, _ in pts)):
                        moved(o)
                    pts = {(x, y) for x, y in pts if x != d[0]} | new
                elif r[0] in ("ref", "rawptr"):
                    p = r[2]
                    if len(p) == 1:
                        new = {(d[0], p[0])}
                    elif p[1] == "*":
                        new = {(d[0], y) for x, y in pts if x == p[0]}
                    else:
                        new = {(d[0], p[0])}
                    pts = {(x, y) for x, y in pts if x != d[0]} | new
                elif r[0] == "agg":
                    for o in r[2]:
                        moved(o)
                if len(d) == 1:
                    dead.discard(d[0])
        t = bb["t"]
        if t[0] == "call":
            if i in reg:
                q = t[2][2].get("c") or t[2][2].get("m")
                tg = {y for x, y in pts if q and x == q[0]}
                if tg:
                    c.ob(f"alive:{n}", not (tg & dead), f"the client data registered at line {t[5]} points to a variable that has been moved or dropped", c.where(b), rule="client data alive at registration")
            for o in t[2]:
                p = o.get("c") or o.get("m")
                if not (p and any(x == p[0] for x, _ in pts)):
                    moved(o)
            if len(t[3]) == 1:
                dead.discard(t[3][0])
        elif t[0] == "drop" and len(t[1]) == 1:
            dead.add(t[1][0])
        for s in P.succ(b, i):
            old = states.get(s)
            new = (frozenset(pts), frozenset(dead)) if old is None else (old[0] | pts, old[1] & dead)
            if new != old:
                states[s] = new
                work.append(s)
