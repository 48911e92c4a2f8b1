"""P13: a cached translation is handed out exactly when neither its source nor any of its dependencies changed since it was stored.
Abstract interpretation of storing and looking up, with the file system and the digest as worlds of file contents."""
import hashlib
import re
from absint import *
import ctx
import p11
from models import deref, setref, lit, find_entry, span_of, iters, _mapedit

LEVEL = "other"
ASSUMPTIONS = ["the digest library gives different digests for different contents", "no file changes between two readings within one lookup"]
BIG = 70000


class World:
    """Files by path; a path that is missing cannot be read."""

    def __init__(self, files, disk):
        self.files, self.disk = files, disk

    def __call__(self, I, st, name, rec, args, site):
        n, g = short(name), rec.get("fn") or ""
        r = self.library(I, st, n, g, rec, args)
        if r is not None:
            return [(st, r)]
        if "std::fs::" in name and n in ("read", "read_to_string") and args:
            p = lit(one(deref(I, st, args[0])))
            if p is None:
                return None
            if p in self.disk:
                return [(st, v(ok(self.disk[p])))]
            return [(st, v(ok(v(S(self.files[p]))) if p in self.files else err(v(sym("io error", "std::io::error::Error")))))]
        if "std::path::" in name and n in ("exists", "is_file", "try_exists") and args:
            p = lit(one(deref(I, st, args[0])))
            if p is not None:
                e = v(B(p in self.files or p in self.disk))
                return [(st, e if n != "try_exists" else v(ok(e)))]
        if "std::path::" in name and n == "join" and len(args) == 2:
            p, q = (lit(one(deref(I, st, x))) for x in args)
            if p is not None and q is not None:
                return [(st, v(S(q if q.startswith("/") else p.rstrip("/") + "/" + q)))]
        if "std::fs::" in name and n in ("create_dir", "create_dir_all"):
            return [(st, v(ok(v(UNIT))))]
        if "std::fs::" in name and n == "write" and len(args) == 2:
            p = lit(one(deref(I, st, args[0])))
            if p is not None:
                self.disk[p] = deref(I, st, args[1])
                return [(st, v(ok(v(UNIT))))]
        if "std::fs::" in name and n == "rename" and len(args) == 2:
            p, q = (lit(one(deref(I, st, x))) for x in args)
            if p in self.disk and q is not None:
                self.disk[q] = self.disk.pop(p)
                return [(st, v(ok(v(UNIT))))]
        if "serde_json::" in name and args:
            if n in ("to_string", "to_string_pretty", "to_vec", "to_vec_pretty"):
                return [(st, v(ok(v(T("json", I.strip(st, deref(I, st, args[0])))))))]
            if n in ("from_str", "from_slice"):
                x = one(deref(I, st, args[0]))
                return [(st, v(ok(x.a[0])))] if x is not None and x.k == "json" else None
        if "std::path::" in name and n in ("to_path_buf", "as_path", "new", "display") and args:
            return [(st, deref(I, st, args[0]))]
        if "std::path::" in name and n == "file_name" and args:
            p = lit(one(deref(I, st, args[0])))
            if p is not None:
                return [(st, v(some(v(S(p.split("/")[-1])))))]
        if "digest" in g or "sha2" in g or "digest" in name:
            if n in ("new", "default"):
                return [(st, v(T("hasher", "")))]
            if n in ("update", "chain_update") and len(args) == 2:
                h, x = one(deref(I, st, args[0])), lit(one(deref(I, st, args[1])))
                if h is not None and h.k == "hasher":
                    new = v(T("hasher", h.a[0] + x)) if x is not None else v(TOP)
                    if n == "update":
                        setref(I, st, args[0], new)
                        return [(st, v(UNIT))]
                    return [(st, new)]
            if n in ("finalize", "finalize_reset") and args:
                h = one(deref(I, st, args[0]))
                if h is not None and h.k == "hasher":
                    return [(st, v(S(hashlib.sha256(h.a[0].encode()).hexdigest())))]
            if n == "digest" and args:
                x = lit(one(deref(I, st, args[0])))
                if x is not None:
                    return [(st, v(S(hashlib.sha256(x.encode()).hexdigest())))]
        if n in ("new_lower_hex", "new_upper_hex") and args:
            rec = dict(rec, fn="core::fmt::rt::Argument::new_display")
            from models import EXACT
            return [(st, EXACT["core::fmt::rt::Argument::new_display"](I, st, args, rec, site, None))]
        return None


    def library(self, I, st, n, g, rec, args):
        """Byte strings with known contents, and maps with known keys."""
        x = lit(one(deref(I, st, args[0]))) if args else None
        if x is not None:
            i = one(args[1]) if len(args) > 1 else None
            if n in ("index", "get") and i is not None and i.k == "adt" and "Range" in i.a[0]:
                lo, hi = span_of(i, len(x))
                if lo is not None:
                    fit = 0 <= lo <= hi <= len(x)
                    if n == "get":
                        return v(some(v(S(x[lo:hi])))) if fit else v(NONE)
                    if fit:
                        return v(S(x[lo:hi]))
            if n in ("trim_ascii", "trim_ascii_start", "trim_ascii_end"):
                return v(S({"trim_ascii": x.strip, "trim_ascii_start": x.lstrip, "trim_ascii_end": x.rstrip}[n]()))
            if n in ("to_ascii_lowercase", "to_ascii_uppercase"):
                return v(S(x.lower() if "lower" in n else x.upper()))
            if n == "chunks" and i is not None and i.k == "i" and i.a[0] * 50 > len(x):
                return v(SEQ(tuple(("e", v(S(x[j:j + i.a[0]]))) for j in range(0, len(x), i.a[0]))))
        if n in ("min", "max") and re.search(r"cmp::Ord::|cmp::(min|max)$", g) and len(args) == 2:
            p, q = one(deref(I, st, args[0])), one(deref(I, st, args[1]))
            if p is not None and q is not None and p.k == q.k == "i":
                return v(T("i", (min if n == "min" else max)(p.a[0], q.a[0])))
        if n == "entry" and "Map" in g and len(args) == 2:
            t, k = one(deref(I, st, args[0])), deref(I, st, args[1])
            if t is not None and find_entry(I, st, t, k) is not None:
                return v(T("entry", args[0], k))
        if n in ("or_insert", "insert_entry", "insert") and "Entry" in g and len(args) == 2:
            e = one(args[0])
            if e is not None and e.k == "entry":
                i = find_entry(I, st, one(deref(I, st, e.a[0])), e.a[1])
                if i == -1 or n != "or_insert":
                    _mapedit(I, st, [e.a[0], e.a[1], args[1]], "insert", False)
                return VTOP
        if n in ("collect", "from_iter") and "Map<" in str(rec.get("ga")):
            ga = rec.get("ga") or []
            tgt = ga[1] if n == "collect" and len(ga) > 1 else ga[0]
            its = iters(I, st, args[0])
            if len(its) == 1:
                wrapped = re.match(r"core::(result::Result|option::Option)<", tgt)
                es = {}
                for k, V in its[0]:
                    t = one(V)
                    if wrapped and t is not None and t.k == "adt" and t.a[1] in ("Err", "None"):
                        return v(t)
                    if wrapped and t is not None and t.k == "adt":
                        t = one(t.a[2][0][1])
                    if k != "e" or t is None or t.k != "tup" or one(deref(I, st, t.a[0][0])) is None:
                        return None
                    es[one(deref(I, st, t.a[0][0]))] = t.a[0][1]
                m = v(T("map", "hash" if "Hash" in tgt else "btree", tuple(es.items())))
                return m if not wrapped else v(ok(m)) if "Result<" in tgt[:30] else v(some(m))
        return None


def one(V):
    return next(iter(V)) if len(V) == 1 else None


def cache(I, c):
    r = I.run(c.P.fn("TranspilationCache::with_directory"), [v(S("/cache"))])
    return r[0][1]


def translated(path, deps, text="fn f() {}"):
    return v(adt("decy_core::TranspiledFile", "", source_path=v(S(path)), rust_code=v(S(text)), dependencies=v(SEQ(tuple(("e", v(S(d))) for d in deps))),
                 functions_exported=v(SEQ(())), ffi_declarations=v(S(""))))


def kinds(V):
    return sorted({t.a[1] if t.k == "adt" else t.k for t in V})


def history(c, steps):
    """Runs a history on one cache: ("put", files, path, deps, text) | ("get", files, path). Returns the results of the lookups."""
    out = []
    st = State()
    cell = (("cache",), 0)
    disk = {}
    I = c.interp(on_call=World({}, disk), unroll=60, maxdepth=30)
    st.set(cell[0], cell[1], cache(I, c))
    me = v(T("ref", cell, ()))
    for i, s in enumerate(steps):
        I = c.interp(on_call=World(s[1], disk), unroll=60, maxdepth=30, more=True)
        I.hash_ordered = True       # the changed dependency takes every place in the order
        if s[0] == "put":
            tc = (("translated", i), 0)
            st.set(tc[0], tc[1], translated(s[2], s[3], s[4]))
            r = I.run(c.P.fn("TranspilationCache::insert"), [me, v(S(s[2])), v(T("ref", tc, ()))], st)
        elif s[0] == "reload":      # a later run of the command
            r = I.run(c.P.fn("TranspilationCache::save"), [me], st)
            if len(r) == 1 and kinds(r[0][1]) == ["Ok"]:
                r = I.run(c.P.fn("TranspilationCache::load"), [v(S("/cache"))], r[0][0])
                if len(r) == 1 and kinds(r[0][1]) == ["Ok"]:
                    r[0][0].set(cell[0], cell[1], one(r[0][1]).a[2][0][1])
        else:
            r = I.run(c.P.fn("TranspilationCache::get"), [me, v(S(s[2]))], st)
        c.done(I)
        if len(r) != 1:
            return out + [v(TOP)]
        st = r[0][0]
        if s[0] == "get":
            out.append(frozenset(some(deref(I, st, t.a[2][0][1])) if t.k == "adt" and t.a[1] == "Some" else t for t in r[0][1]))
    return out


def text_of(V):
    """What a lookup gave: None, the text of the translation, or '?'."""
    t = one(V)
    if t is None or t.k != "adt":
        return "?"
    if t.a[1] == "None":
        return None
    x = one(t.a[2][0][1])
    if x is None or x.k != "adt":
        return "?"
    s = lit(one(dict(x.a[2]).get("rust_code", frozenset())))
    return s if s is not None else "?"


def expect(steps):
    """The oracle: an entry is what was stored last for a path while everything could be read; it is current while all contents are the same."""
    store, out = {}, []
    for s in steps:
        if s[0] == "put":
            _, files, path, deps, text = s
            if all(p in files for p in [path] + list(deps)):
                store[path] = (text, {p: files[p] for p in [path] + list(deps)})
        elif s[0] == "get":
            _, files, path = s
            e = store.get(path)
            out.append(e[0] if e and all(files.get(p) == x for p, x in e[1].items()) else None)
    return out


def check(c, item):
    key, steps, why = item
    got = history(c, steps)
    want = expect(steps)
    bad = [(text_of(g), w) for g, w in zip(got, want) if text_of(g) != w]
    unknown = frozenset({TOP}) if any(text_of(g) == "?" for g in got) or len(got) != len(want) else frozenset()
    sh = lambda x: "nothing" if x is None else f"the stored translation {x!r}"
    c.ob(key, not bad and not unknown, f"{why}: the lookup gives {sh(bad[0][0]) if bad else '?'} but should give {sh(bad[0][1]) if bad else '?'}", c.where(c.P.fn("TranspilationCache::get")), val=unknown or v(UNIT))


def changes(x):
    yield "first byte", "#" + x[1:]
    yield "last byte", x[:-1] + "#"
    yield "middle byte", x[:len(x) // 2] + "#" + x[len(x) // 2 + 1:]
    yield "byte appended", x + "#"
    yield "blank appended", x + "\n"
    yield "last byte removed", x[:-1]
    yield "first byte removed", x[1:]
    yield "letter case", x.upper()
    yield "blank inserted", x[:3] + " " + x[3:]
    yield "emptied", ""
    yield "missing", None


def cases(deep):
    src = "int f(int a) { return a; }\n"
    P0 = "/p/main.c"
    for nd in (0, 1, 2, 3, 4) + ((8, 20) if not deep else (8, 20, 33)):
        deps = [f"/p/d{i}.h" for i in range(nd)]
        files = dict({P0: src}, **{d: f"int v{i};\n" for i, d in enumerate(deps)})
        put = ("put", files, P0, deps, "T1")
        yield f"{nd} dependencies:unchanged", [put, ("get", files, P0)], f"a file with {nd} dependencies, nothing changed"
        yield f"{nd} dependencies:looked up twice", [put, ("get", files, P0), ("get", files, P0)], f"a file with {nd} dependencies, nothing changed, second lookup"
        yield f"{nd} dependencies:others changed", [put, ("get", dict(files, **{"/p/other.c": "x"}), P0)], "an unrelated file appeared"
        for i, p in enumerate([P0] + deps):
            if nd > 4 and i not in (0, 1, nd // 2, nd):
                continue
            for what, y in changes(files[p]):
                f2 = dict(files)
                if y is None:
                    del f2[p]
                else:
                    f2[p] = y
                which = "the source" if p == P0 else f"dependency {i} of {nd}"
                yield f"{nd} dependencies:{which}:{what}", [put, ("get", f2, P0)], f"{which} changed ({what})"
                if what in ("last byte", "missing"):
                    yield f"{nd} dependencies:{which}:{what} and back", [put, ("get", f2, P0), ("get", files, P0)], f"{which} changed ({what}) and changed back"
                    yield f"{nd} dependencies:{which}:{what}:stored again", [put, ("put", f2, P0, deps, "T2"), ("get", f2, P0), ("get", files, P0)], f"{which} changed ({what}) and the translation was stored again"
                    yield f"{nd} dependencies:{which}:{what}:twice", [put, ("get", f2, P0), ("get", f2, P0)], f"{which} changed ({what}), second lookup"
        if nd >= 2:
            f2 = dict(files)
            f2[deps[0]], f2[deps[-1]] = files[deps[-1]], files[deps[0]]
            yield f"{nd} dependencies:two exchanged", [put, ("get", f2, P0)], "two dependencies exchanged their contents"
            f3 = dict(files)
            f3[deps[0]] = files[deps[-1]]
            yield f"{nd} dependencies:one copied over another", [put, ("get", f3, P0)], "a dependency got the contents of another"
    for p in ("/p/main.c", "/p/d.h"):
        files = {"/p/main.c": "int x;" * (BIG // 6), "/p/d.h": "int y;" * (BIG // 6)}
        put = ("put", files, P0, ["/p/d.h"], "T1")
        yield f"large:{p}:unchanged", [put, ("get", files, P0)], "large files, nothing changed"
        for what, y in changes(files[p]):
            if y is not None:
                yield f"large:{p}:{what}", [put, ("get", dict(files, **{p: y}), P0)], f"a large file changed ({what})"
    # several entries
    names = ["/p/a.c", "/p/b.c", "/q/a.c"]
    files = {n: f"int {i};" for i, n in enumerate(names)}
    files["/p/h.h"] = "int h;"
    puts = [("put", files, n, ["/p/h.h"], f"T{i}") for i, n in enumerate(names)]
    yield "several:own translation", puts + [("get", files, n) for n in names], "three files stored"
    for i, n in enumerate(names):
        yield f"several:{n} changed", puts + [("get", dict(files, **{n: "int z;"}), m) for m in names], f"three files stored, {n} changed"
    yield "several:shared dependency changed", puts + [("get", dict(files, **{"/p/h.h": "int i;"}), m) for m in names], "three files stored, their common dependency changed"
    yield "several:not stored", puts[:1] + [("get", files, "/p/b.c")], "a file that was never stored"
    yield "same contents", [("put", {"/p/a.c": "x", "/p/b.c": "x"}, "/p/a.c", [], "TA"), ("get", {"/p/a.c": "x", "/p/b.c": "x"}, "/p/b.c")], "a file never stored, with the contents of a stored one"
    # what could not be read when it was stored
    for miss in ("/p/main.c", "/p/d0.h", "/p/d1.h"):
        files = {"/p/main.c": "m", "/p/d0.h": "a", "/p/d1.h": "b"}
        f0 = {k: x for k, x in files.items() if k != miss}
        put = ("put", f0, P0, ["/p/d0.h", "/p/d1.h"], "T1")
        yield f"unreadable when stored:{miss}", [put, ("get", files, P0)], f"{miss} could not be read when the translation was stored and can be now"


def later(steps):
    """The same history with the cache saved and loaded before the first lookup."""
    i = next(i for i, s in enumerate(steps) if s[0] == "get")
    return steps[:i] + [("reload", {})] + steps[i:]


def both(deep):
    for key, steps, why in cases(deep):
        yield key, steps, why
        yield key + ":saved and loaded", later(steps), why + ", in a later run"


def run(c):
    ctx.par(c, both(c.deep), check)
    c.count("histories", c.nob)
    c.floor("histories", c.nob, 700)
    fields(c)


def fields(c):
    """Everything a stored entry holds survives saving and loading: the serialisers write and read every field."""
    n = 0
    for ty in ("decy_core::CacheEntry", "decy_core::TranspiledFile"):
        d = c.P.adts.get(ty)
        if d is None:
            continue
        names = [f[0] for f in d["vars"][0]["f"]]
        for f, b in c.P.bodies.items():
            if re.search(rf"Serialize for {ty}>::serialize$|<{ty} as serde\w*::ser::Serialize>::serialize$", f):
                w = [t for _, t in c.P.calls(b) if p11.name(t[1])[1].endswith("::serialize_field")]
                if any(p11.name(t[1])[1].endswith("::serialize_struct") for _, t in c.P.calls(b)):
                    n += 1
                    c.ob(f"saved:{ty}", len(w) >= len(names), f"saving a {ty} writes {len(w)} of its {len(names)} fields ({', '.join(names)})", c.where(b))
        for a, x in c.P.adts.items():
            if re.search(rf"Deserialize<.*> for {ty}>::deserialize::__Field$", a):
                k = len([y for y in x["vars"] if y["n"].startswith("__field")])
                n += 1
                c.ob(f"loaded:{ty}", k >= len(names), f"loading a {ty} reads {k} of its {len(names)} fields ({', '.join(names)})", x.get("span", ""))
    c.count("serialisers", n)
