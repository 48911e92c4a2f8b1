"""Transfer functions for the standard-library calls the code base uses. A model returns a value (the state is
updated in place), a list of (state, value) outcomes, or None to fall through to the default handling."""
from absint import *
from absint import _scan
import re

EXACT, PRE = {}, []


def m(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


_G = re.compile(r"<[^<>]*>")


def canon(n):
    """core::option::Option::<T>::map -> core::option::Option::map; impl blocks reduced to their type."""
    if n.startswith("<") and " as " in n:
        return n
    n = re.sub(r"<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>", lambda k: "{" + k.group(1) + "}", n)
    p = None
    while p != n:
        p = n
        n = _G.sub("", n)
    return n.replace("::::", "::")


_canon = {}


def lookup(fn, res):
    c = _canon.get(fn)
    if c is None:
        c = _canon[fn] = canon(fn)
    f = EXACT.get(c)
    if f is None and res != fn:
        c2 = _canon.get(res)
        if c2 is None:
            c2 = _canon[res] = canon(res)
        f = EXACT.get(c2)
    return f


def one(V):
    return next(iter(V)) if len(V) == 1 else None


def deref(I, st, V):
    out = set()
    for t in V:
        if t.k == "ref":
            out |= I.read_ref(st, t)
        else:
            out.add(t)
    return frozenset(out)


def setref(I, st, V, new, strong=None):
    """Writes `new` through the reference value V."""
    refs = [t for t in V if t.k == "ref"]
    strong = len(refs) == 1 and len(V) == 1 if strong is None else strong
    for t in refs:
        cell, pr = t.a
        old = st.get(*cell)
        if pr:
            st.set(cell[0], cell[1], I.upd(old if old is not None else VTOP, pr, new, strong))
        else:
            st.set(cell[0], cell[1], new if strong or old is None else norm(old | new))


def display(V):
    return S(("h", V))


def text(V):
    """The set of string terms for a value used as text."""
    out = set()
    for t in V:
        out.add(t if t.k == "str" else S(("h", v(t))))
    return frozenset(out)


def lit(t):
    if t is not None and t.k == "str" and all(isinstance(p, str) for p in t.a[0]):
        return "".join(t.a[0])
    return None


# ---- identity-like
@m("core::ops::deref::Deref::deref", "core::clone::Clone::clone", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow",
   "core::hint::must_use", "anyhow::__private::must_use", "alloc::boxed::Box::new", "alloc::string::String::as_str", "alloc::string::String::into_boxed_str", "alloc::boxed::Box::leak",
   "core::option::Option::as_ref", "core::option::Option::as_deref", "core::option::Option::cloned", "core::option::Option::copied",
   "core::option::Option::as_mut", "core::option::Option::as_deref_mut", "alloc::vec::Vec::as_slice", "alloc::slice::{[T]}::to_vec", "alloc::borrow::ToOwned::to_owned",
   "std::path::Path::to_path_buf", "std::path::Path::new", "core::convert::Into::into", "alloc::slice::{[T]}::into_vec", "core::result::Result::as_ref",
   "alloc::vec::Vec::into_boxed_slice", "alloc::string::String::as_bytes", "core::str::{str}::as_bytes", "std::path::PathBuf::as_path", "alloc::string::String::into_bytes",
   "std::path::Path::display", "std::path::Path::to_string_lossy", "alloc::borrow::Cow::into_owned", "core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::copied",
   "core::iter::traits::iterator::Iterator::by_ref", "core::iter::traits::iterator::Iterator::fuse", "core::iter::traits::iterator::Iterator::peekable", "alloc::sync::Arc::new", "alloc::rc::Rc::new", "core::mem::ManuallyDrop::new",
   "alloc::str::{str}::into_string", "alloc::string::String::into_string", "alloc::str::{str}::into_boxed_bytes", "core::convert::identity")
def ident(I, st, a, rec, site, fid):
    return a[0]


@m("core::convert::From::from")
def from_(I, st, a, rec, site, fid):
    if rec.get("res") in I.p.bodies:
        return None
    return a[0]


@m("core::ops::deref::DerefMut::deref_mut", "core::convert::AsMut::as_mut", "core::borrow::BorrowMut::borrow_mut", "alloc::vec::Vec::as_mut_slice")
def ident_mut(I, st, a, rec, site, fid):
    return a[0]


@m("alloc::string::ToString::to_string")
def to_string(I, st, a, rec, site, fid):
    ty = (rec.get("ga") or [""])[0]
    b = I.p.bodies.get(f"<{ty} as core::fmt::Display>::fmt")
    if b is not None:
        t = one(a[0])
        return v(T("call", f"<{ty} as core::fmt::Display>::to_string", (a[0],)))
    return text(deref(I, st, a[0]))


# ---- formatting
@m("core::fmt::rt::Argument::new_display")
def arg_display(I, st, a, rec, site, fid):
    ty = (rec.get("ga") or [""])[0].lstrip("&")
    if f"<{ty} as core::fmt::Display>::fmt" in I.p.bodies:
        return v(T("farg", "display", v(T("call", f"<{ty} as core::fmt::Display>::to_string", (a[0],)))))
    return v(T("farg", "display", a[0]))


def _arg(kind):
    def f(I, st, a, rec, site, fid):
        return v(T("farg", kind, a[0]))
    return f


for _k in ("debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp", "upper_exp", "pointer"):
    EXACT["core::fmt::rt::Argument::new_" + _k] = _arg(_k)


@m("core::fmt::rt::Argument::from_usize")
def arg_usize(I, st, a, rec, site, fid):
    return v(T("farg", "usize", a[0]))


def decode(bytes_, argvs):
    out, i, nxt = [], 0, 0
    while i < len(bytes_):
        c = bytes_[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(bytes(bytes_[i:i + c]).decode("utf8", "replace"))
            i += c
        elif c == 0x80:
            n = bytes_[i] | bytes_[i + 1] << 8
            i += 2
            out.append(bytes(bytes_[i:i + n]).decode("utf8", "replace"))
            i += n
        else:
            opts = []
            if c & 1:
                opts.append(("flags", int.from_bytes(bytes(bytes_[i:i + 4]), "little")))
                i += 4
            if c & 2:
                opts.append(("width", int.from_bytes(bytes(bytes_[i:i + 2]), "little")))
                i += 2
            if c & 4:
                opts.append(("prec", int.from_bytes(bytes(bytes_[i:i + 2]), "little")))
                i += 2
            if c & 8:
                nxt = bytes_[i] | bytes_[i + 1] << 8
                i += 2
            V = argvs[nxt] if nxt < len(argvs) else VTOP
            nxt += 1
            W = set()
            for t in V:
                if t.k == "farg":
                    if t.a[0] == "display" and not opts:
                        W |= t.a[1]
                    else:
                        W.add(T("fmt", t.a[0], tuple(opts), t.a[1]))
                else:
                    W.add(t)
            out.append(("h", norm(frozenset(W))))
    return out


@m("core::fmt::Arguments::new")
def args_new(I, st, a, rec, site, fid):
    t, ar = one(a[0]), one(deref(I, st, a[1]))
    if t is None or t.k != "bytes" or ar is None or ar.k != "arr":
        return VTOP
    vs = [frozenset(x if x.k != "farg" else T("farg", x.a[0], deref(I, st, x.a[1])) for x in V) for V in ar.a[0]]
    return v(S(*decode(t.a[0], vs)))


@m("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "alloc::fmt::format")
def fmt_format(I, st, a, rec, site, fid):
    return text(a[0])


# ---- strings
@m("alloc::string::String::new", "alloc::string::String::with_capacity")
def str_new(I, st, a, rec, site, fid):
    return v(S())


@m("alloc::string::String::push_str", "alloc::string::String::push")
def push_str(I, st, a, rec, site, fid):
    setref(I, st, a[0], conc(text(deref(I, st, a[0])), deref(I, st, a[1])))
    return v(UNIT)


@m("core::fmt::Write::write_fmt", "core::fmt::Write::write_str", "core::fmt::Write::write_char")
def write_fmt(I, st, a, rec, site, fid):
    if rec.get("self") not in ("alloc::string::String", None):
        return None
    setref(I, st, a[0], conc(text(deref(I, st, a[0])), deref(I, st, a[1])))
    return v(ok(v(UNIT)))


@m("core::fmt::Formatter::write_str", "core::fmt::Formatter::write_fmt")
def fm_write(I, st, a, rec, site, fid):
    refs = [t for t in a[0] if t.k == "ref"]
    if refs:
        setref(I, st, a[0], conc(text(deref(I, st, a[0])), a[1]))
        return v(ok(v(UNIT)))
    return v(ok(v(UNIT)))


@m("core::ops::arith::Add::add")
def add(I, st, a, rec, site, fid):
    if "String" in (rec.get("self") or "") or any(t.k == "str" for t in a[0]):
        return conc(text(a[0]), a[1])
    return I.binop(st, "Add", a[0], a[1])


@m("core::ops::arith::AddAssign::add_assign")
def add_assign(I, st, a, rec, site, fid):
    if "String" in (rec.get("self") or ""):
        setref(I, st, a[0], conc(text(deref(I, st, a[0])), a[1]))
        return v(UNIT)
    setref(I, st, a[0], I.binop(st, "Add", deref(I, st, a[0]), a[1]))
    return v(UNIT)


def joinseq(I, V, sep):
    out = set()
    for t in V:
        if t.k == "arr":
            t = T("seq", tuple(("e", x) for x in t.a[0]))
        if t.k == "seq":
            ps = []
            if all(p[0] == "e" for p in t.a[0]):
                for i, p in enumerate(t.a[0]):
                    if i:
                        ps.append(("h", sep))
                    ps.append(("h", p[1]))
                out.add(S(*ps))
            else:
                alln = frozenset().union(*[p[1] for p in t.a[0]])
                out.add(S(("jstar", text(norm(alln)), sep)))
        else:
            out.add(S(("jstar", text(v(T("elem", t))), sep)))
    return norm(frozenset(out))


@m("alloc::slice::{[T]}::join", "alloc::slice::{[S]}::join")
def join_(I, st, a, rec, site, fid):
    return joinseq(I, deref(I, st, a[0]), a[1])


@m("alloc::slice::{[T]}::concat")
def concat_(I, st, a, rec, site, fid):
    t = one(deref(I, st, a[0]))
    if t is not None and t.k in ("seq", "arr") and all(q[0] == "e" for q in pieces_of(I, t)):
        parts = [one(deref(I, st, q[1])) for q in pieces_of(I, t)]
        if all(x is not None and x.k in ("seq", "arr") for x in parts) and parts:
            return v(SEQ(tuple(y for x in parts for y in pieces_of(I, x))))
    return joinseq(I, deref(I, st, a[0]), v(S()))


def names(V):
    return all(t.k == "sym" and t.a[1] == "name" or t.k == "str" and all(isinstance(p, str) and re.fullmatch(r"[\w#]*", p) or not isinstance(p, str) and p[0] == "h" and names(p[1]) for p in t.a[0]) for t in V)


def apart(ps, x):
    """Can the pattern only lie within the known parts of a text whose unknown parts are identifiers?"""
    for i, p in enumerate(ps):
        if isinstance(p, str):
            continue
        if p[0] != "h" or not names(p[1]) or re.fullmatch(r"[\w#]*", x):
            return False
        l = ps[i - 1] if i and isinstance(ps[i - 1], str) else ""
        r = ps[i + 1] if i + 1 < len(ps) and isinstance(ps[i + 1], str) else ""
        if i + 1 < len(ps) and not isinstance(ps[i + 1], str):
            return False
        for k in range(1, len(x)):
            if l.endswith(x[:k]) and re.match(r"[\w#]", x[k]) or r.startswith(x[k:]) and re.match(r"[\w#]", x[k - 1]):
                return False
    return True


CHARSETS = {"contains", "starts_with", "ends_with", "trim_end_matches", "trim_start_matches", "trim_matches"}


def charset(t):
    """The characters of a constant array used as a pattern."""
    if all(len(x) == 1 and next(iter(x)).k == "ch" for x in t.a[0]):
        return tuple(next(iter(x)).a[0] for x in t.a[0])
    return None


def strfold(name, f):
    def g(I, st, a, rec, site, fid):
        out = set()
        rest = [deref(I, st, x) for x in a[1:]]
        cs = [lit(one(x)) if one(x) is not None and one(x).k == "str" else (one(x).a[0] if one(x) is not None and one(x).k in ("ch", "i") else charset(one(x)) if one(x) is not None and one(x).k == "arr" else None) for x in rest]
        if any(isinstance(c, tuple) for c in cs) and name not in CHARSETS:
            cs = [None]
        for t in deref(I, st, a[0]):
            s = lit(t)
            if s is not None and all(c is not None for c in cs):
                out.add(f(s, *cs))
            elif name == "replace" and t.k == "str" and len(cs) == 2 and None not in cs and isinstance(cs[0], str) and apart(t.a[0], cs[0]):
                out.add(S(*[p.replace(*cs) if isinstance(p, str) else p for p in t.a[0]]))
            else:
                u = T("call", name, (v(t),) + tuple(VTOP if _scan(x)[0] else x for x in rest))
                k = I.known(st, u)
                out.add(B(k) if k is not None and name in BOOLS else u)
        return frozenset(out)
    return g


BOOLS = {"contains", "starts_with", "ends_with", "is_empty"}
for _n, _f in {
    "contains": lambda s, x: B(any(y in s for y in x) if isinstance(x, tuple) else x in s), "starts_with": lambda s, x: B(s.startswith(x)), "ends_with": lambda s, x: B(s.endswith(x)),
    "trim": lambda s: S(s.strip()), "trim_start": lambda s: S(s.lstrip()), "trim_end": lambda s: S(s.rstrip()),
    "to_uppercase": lambda s: S(s.upper()), "to_lowercase": lambda s: S(s.lower()), "to_ascii_lowercase": lambda s: S(s.lower()), "to_ascii_uppercase": lambda s: S(s.upper()),
    "replace": lambda s, x, y: S(s.replace(x, y)), "replacen": lambda s, x, y, n: S(s.replace(x, y, n)),
    "repeat": lambda s, n: S(s * n) if isinstance(n, int) and n < 100 else TOP,
}.items():
    g = strfold(_n, _f)
    EXACT["core::str::{str}::" + _n] = g
    EXACT["alloc::str::{str}::" + _n] = g


@m("alloc::string::String::is_empty", "core::str::{str}::is_empty")
def s_empty(I, st, a, rec, site, fid):
    out = set()
    for t in deref(I, st, a[0]):
        if t.k == "str":
            if not t.a[0]:
                out.add(B(True))
                continue
            if any(isinstance(p, str) for p in t.a[0]):
                out.add(B(False))
                continue
        if t.k == "sym" and t.a[1] == "name":
            out.add(B(False))       # an identifier has at least one character
            continue
        u = T("call", "is_empty", (v(t),))
        k = I.known(st, u)
        out.add(B(k) if k is not None else u)
    return frozenset(out)


@m("alloc::string::String::len", "core::str::{str}::len", "alloc::vec::Vec::len", "core::slice::{[T]}::len", "std::collections::hash::map::HashMap::len")
def length(I, st, a, rec, site, fid):
    return I.length(deref(I, st, a[0]))


# ---- comparisons
CKEYWORDS = set("auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while _Bool".split())


def bare(t):
    """A text that consists of one unknown part only is that part."""
    while t.k == "str" and len(t.a[0]) == 1 and not isinstance(t.a[0][0], str) and t.a[0][0][0] == "h" and len(t.a[0][0][1]) == 1:
        t = next(iter(t.a[0][0][1]))
    return t


def cmp_eq(I, st, x, y):
    """True/False/opaque equality of two terms."""
    if x.k == "top" or y.k == "top":
        return TOP
    x, y = bare(x), bare(y)
    sx, sy = lit(x), lit(y)
    if sx is not None and sy is not None:
        return B(sx == sy)
    if x.k == y.k and x.k in ("i", "b", "ch"):
        return B(x.a[0] == y.a[0])
    if x is y:
        return B(True)
    if x.k == y.k == "sym" and x.a[1] == y.a[1] == "name":
        return B(False)     # differently named identifiers of a described program
    if sx is not None:
        x, y, sx, sy = y, x, sy, sx
    if sy is not None:
        if x.k == "sym" and x.a[1] == "name" and (I.fresh or not re.fullmatch(r"[A-Za-z_]\w*", sy) or sy in CKEYWORDS):
            return B(False)     # a C identifier is neither punctuation nor a keyword
        if x.k == "str":
            pre = x.a[0][0] if x.a[0] and isinstance(x.a[0][0], str) else ""
            suf = x.a[0][-1] if x.a[0] and isinstance(x.a[0][-1], str) else ""
            if not sy.startswith(pre) or not sy.endswith(suf):
                return B(False)
            if len(x.a[0]) == 1 and x.a[0][0][0] == "h":
                inner = x.a[0][0][1]
                if len(inner) == 1:
                    return cmp_eq(I, st, next(iter(inner)), y)
        k = st.facts.get(T("strval", x))
        if k is not None:
            if sy not in k:
                return B(False)
            if len(k) == 1:
                return B(True)
        u = T("eqs", x, sy)
        kn = I.known(st, u)
        return B(kn) if kn is not None else u
    if x.k == "adt" and x.a[0] != "?" and not (y.k == "adt"):
        x, y = y, x
    if y.k == "adt" and y.a[0] not in ("?", "?of"):
        if x.k == "adt" and x.a[0] not in ("?", "?of"):
            if x.a[1] != y.a[1]:
                return B(False)
            if not x.a[2] and not y.a[2]:
                return B(True)
            res = set()
            for (_, p), (_, q) in zip(x.a[2], y.a[2]):
                rs = {cmp_eq(I, st, i, j) for i in p for j in q}
                if rs == {B(False)}:
                    return B(False)
                res |= rs
            if res == {B(True)}:
                return B(True)
        elif not y.a[2]:
            en = y.a[0]
            d = I.discr(st, v(x), en)
            i = I.vindex(en, y.a[1])
            if i is not None:
                return one(I.binop(st, "Eq", d, v(T("i", i)))) or TOP
        else:
            en = y.a[0]
            d = one(I.discr(st, v(x), en))
            i = I.vindex(en, y.a[1])
            if d is not None and i is not None and d.k == "i" and d.a[0] != i:
                return B(False)
    return T("eq", x, y)


@m("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def part_eq(I, st, a, rec, site, fid):
    ne = rec["fn"].endswith("::ne")
    A, C = deref(I, st, a[0]), deref(I, st, a[1])
    if len(A) * len(C) > 100:
        return VTOP
    out = set()
    for x in A:
        for y in C:
            r = cmp_eq(I, st, x, y)
            if ne:
                r = B(not r.a[0]) if r.k == "b" else T("un", "Not", r) if r.k != "top" else TOP
            out.add(r)
    return norm(frozenset(out))


# ---- vectors, iterators
@m("core::slice::raw::from_ref", "core::array::from_ref", "core::slice::from_ref")
def from_ref(I, st, a, rec, site, fid):
    return v(SEQ((("e", deref(I, st, a[0])),)))


@m("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def vec_new(I, st, a, rec, site, fid):
    return v(SEQ(()))


def pieces_of(I, t):
    if t.k in ("seq", "it"):
        return t.a[0]
    if t.k == "arr":
        return tuple(("e", x) for x in t.a[0])
    if t.k == "adt" and t.a[0] == "core::option::Option":
        return (("e", t.a[2][0][1]),) if t.a[1] == "Some" else ()
    if t.k == "top":
        return (("star", VTOP),)
    if t.k == "adt" and "Range" in t.a[0] and I.unroll:
        r = range_ints(I, t)
        if r is not None:
            return r
    return (("star", v(T("elem", t))),)


def range_ints(I, t):
    """The concrete integers of a Range/RangeInclusive with constant ends, or None."""
    f = dict(t.a[2])
    lo, hi = one(f.get("start", VTOP)), one(f.get("end", VTOP))
    if lo is None or hi is None or lo.k != "i" or hi.k != "i":
        return None
    n = hi.a[0] + (1 if "Inclusive" in t.a[0] else 0)
    if n - lo.a[0] > max(12, I.unroll):
        return None
    return tuple(("e", v(T("i", i))) for i in range(lo.a[0], n))


def iters(I, st, V):
    """Set of piece tuples of the iterator/collection value."""
    return [pieces_of(I, t) for t in deref(I, st, V)]


def entries(I, t, what):
    """The entries of a map all of whose keys are known, as pieces; None if it is not followed. The order of a hashed map
    is arbitrary: rules that do not depend on it say so (I.hash_ordered)."""
    if t.k != "map" or not (isinstance(t.a[1], tuple) or not t.a[1]):
        return None
    es = t.a[1] or ()
    if t.a[0] == "hash" and len(es) > 1 and not I.hash_ordered:
        return None
    if t.a[0] == "btree":
        if len(es) > 1:
            ks = [lit(k) if k.k == "str" else k.a[0] if k.k in ("i", "ch") else None for k, _ in es]
            if any(k is None for k in ks) or len({type(k) for k in ks}) > 1:
                if not I.hash_ordered:
                    return None
                ks = list(range(len(es)))
            es = [e for _, e in sorted(zip(ks, es), key=lambda x: x[0])]
    if what in ("values", "into_values"):
        return tuple(("e", x) for _, x in es)
    if what in ("keys", "into_keys"):
        return tuple(("e", v(k)) for k, _ in es)
    return tuple(("e", v(T("tup", (v(k), x)))) for k, x in es)


def mkit(ps):
    return frozenset(T("it", tuple(p)) for p in ps)


@m("core::slice::{[T]}::iter", "core::iter::traits::collect::IntoIterator::into_iter", "alloc::vec::Vec::drain", "core::option::Option::iter", "core::option::Option::into_iter")
def iter_(I, st, a, rec, site, fid):
    s = rec.get("self") or ""
    b = I.p.bodies.get(rec.get("res") or "")
    if b is not None:
        return None
    ts = deref(I, st, a[0])
    if all(t.k == "map" for t in ts) and ts:
        r = [entries(I, t, "iter" if "Set" not in s else "keys") for t in ts]
        if all(x is not None for x in r):
            return mkit(r)
    if ("hash_map" in s or "HashMap" in s or "HashSet" in s) and not ("Iter" in s):
        return mkit([(("star", v(T("elem", T("hashed", t)))),) for t in deref(I, st, a[0])])
    return mkit(iters(I, st, a[0]))


@m("core::slice::{[T]}::iter_mut")
def iter_mut(I, st, a, rec, site, fid):
    r = one(a[0])
    if r is not None and r.k == "ref":
        t = one(deref(I, st, a[0]))
        if t is not None and t.k in ("seq", "arr"):
            ps = pieces_of(I, t)
            if len(ps) <= 64 and all(p[0] == "e" for p in ps):
                return v(T("it", tuple(("e", v(T("ref", r.a[0], tuple(r.a[1]) + (f"[{i}]c",)))) for i in range(len(ps)))))
    return mkit(iters(I, st, a[0]))


for _n in ("iter", "keys", "values", "into_values", "into_keys", "drain"):
    for _t in ("std::collections::hash::map::HashMap::", "std::collections::hash::set::HashSet::", "alloc::collections::btree::map::BTreeMap::", "alloc::collections::btree::set::BTreeSet::"):
        def _mk(n, hashed, isset):
            def f(I, st, a, rec, site, fid):
                ts = deref(I, st, a[0])
                r = [entries(I, t, "keys" if isset and n in ("iter", "drain") else n) for t in ts]
                if ts and all(x is not None for x in r):
                    if n == "drain":
                        setref(I, st, a[0], frozenset(T("map", t.a[0], frozenset()) for t in ts))
                    return mkit(r)
                return mkit([(("star", v(T("elem", T("hashed" if hashed else "ordered", T("call", n, (v(t),)))))),) for t in deref(I, st, a[0])])
            return f
        EXACT[_t + _n] = _mk(_n, "hash" in _t, "Set" in _t)


@m("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def next_(I, st, a, rec, site, fid):
    if (rec.get("res") or "") in I.p.bodies:
        return None
    res, its = set(), set()
    V0 = deref(I, st, a[0])
    if rec["fn"].endswith("next_back"):
        V0 = frozenset(T("it", tuple(reversed(pieces_of(I, t)))) if t.k in ("it", "seq", "arr") else t for t in V0)
    if I.unroll:
        t = one(V0)
        ps = None
        if t is not None and t.k in ("it", "seq", "arr"):
            ps = pieces_of(I, t)
        elif t is not None and t.k == "adt" and "Range" in t.a[0]:
            ps = range_ints(I, t)
        if ps is not None and len(ps) <= I.unroll and all(p[0] == "e" for p in ps):
            I.rekey(st, fid, ("n", site[1]), len(ps) if ps else None)
            if not ps:
                setref(I, st, a[0], v(T("it", ())))
                return v(NONE)
            rest = ps[1:]
            if rec["fn"].endswith("next_back"):
                rest = tuple(reversed(rest))
            setref(I, st, a[0], v(T("it", rest)))
            return v(some(ps[0][1]))
    for t in V0:
        if t.k in ("top", "mutby", "call", "fld", "sym", "elem", "mut", "adt") and not (t.k == "adt" and t.a[0].endswith("Option")):
            base = t
            if t.k == "adt" and "Range" in t.a[0]:
                res.add(some(v(T("elem", t))))
            elif t.k == "top":
                res.add(some(VTOP))
            else:
                res.add(some(v(T("elem", t))))
            res.add(NONE)
            its.add(base)
            continue
        ps = pieces_of(I, t)
        i = 0
        while True:
            if i >= len(ps):
                res.add(NONE)
                its.add(T("it", ()))
                break
            res.add(some(ps[i][1]))
            if ps[i][0] == "e":
                its.add(T("it", tuple(ps[i + 1:])))
                break
            its.add(T("it", tuple(ps[i:])))
            i += 1
        if len(ps) == 1 and ps[0][0] == "star":
            its.discard(T("it", ()))
            its.add(T("it", ps))
    if len(its) > 12:
        its = {T("it", (("star", norm(frozenset().union(*[p[1] for t in its if t.k == "it" for p in t.a[0]]))),))}
    setref(I, st, a[0], frozenset(its))
    return norm(frozenset(res))


def mapit(I, st, a, site, fid, fn):
    """Applies fn(V)->V to each piece; state threaded."""
    outs = []
    for ps in iters(I, st, a[0]):
        q = []
        for p in ps:
            V = fn(p)
            if V is not None:
                q.append((p[0], V) if not isinstance(V, tuple) else V)
        outs.append(tuple(q))
    return mkit(outs)


def appl(I, st, f, args, site, fid, strong=False):
    """Applies closure f, joins its effects into st, returns value (top when it diverges)."""
    f = deref(I, st, f)
    ns, V = I.apply(f, args, st, site, fid)
    if ns is None:
        return None
    merge_into(st, ns, strong)
    return V


def merge_into(st, ns, strong=False):
    if strong:
        st.mem, st.owned, st.key = ns.mem, set(), ns.key
    else:
        k = ns.key
        join(st, ns, True, 1)
        st.key = max(st.key, k)


@m("core::iter::traits::iterator::Iterator::map")
def it_map(I, st, a, rec, site, fid):
    one_ = len(deref(I, st, a[0])) == 1

    def fn(p):
        r = appl(I, st, a[1], [p[1]], site, fid, strong=one_ and p[0] == "e")
        return r if r is not None else frozenset()
    return mapit(I, st, a, site, fid, lambda p: fn(p) or None)


@m("core::iter::traits::iterator::Iterator::filter", "core::iter::traits::iterator::Iterator::take_while", "core::iter::traits::iterator::Iterator::skip_while", "core::iter::traits::iterator::Iterator::inspect")
def it_filter(I, st, a, rec, site, fid):
    nm = rec["fn"].split("::")[-1]

    def fn(p):
        r = appl(I, st, a[1], [p[1]], site, fid)
        if r == v(B(True)) or nm == "inspect":
            return p[1]
        if r == v(B(False)) and nm == "filter":
            return None
        return ("star", frozenset(T("part", nm, t) if t.k != "part" else t for t in p[1]))
    return mapit(I, st, a, site, fid, fn)


@m("core::iter::traits::iterator::Iterator::filter_map", "core::iter::traits::iterator::Iterator::flat_map", "core::iter::traits::iterator::Iterator::map_while")
def it_filter_map(I, st, a, rec, site, fid):
    nm = rec["fn"].split("::")[-1]

    def fn(p):
        r = appl(I, st, a[1], [p[1]], site, fid)
        if r is None:
            return None
        out, partial = set(), False
        for t in r:
            if t.k == "adt" and t.a[1] == "Some":
                out |= t.a[2][0][1]
            elif t.k == "adt" and t.a[1] == "None":
                partial = True
            elif nm == "flat_map":
                out |= I.elems(v(t))
            else:
                out.add(T("fld", T("fld", t, "@Some"), ".0"))
                partial = True
        if not out:
            return None
        if partial:
            return ("star", frozenset(T("part", nm, t) if t.k != "part" else t for t in out))
        return ("star" if nm == "flat_map" else p[0], norm(frozenset(out)))
    return mapit(I, st, a, site, fid, fn)


@m("core::iter::traits::iterator::Iterator::flatten")
def it_flatten(I, st, a, rec, site, fid):
    def fn(p):
        out = set()
        for t in p[1]:
            if t.k == "adt" and t.a[1] in ("Some", "Ok"):
                out |= t.a[2][0][1]
            elif t.k == "adt" and t.a[1] in ("None", "Err"):
                pass
            else:
                out |= I.elems(v(t))
        return ("star", norm(frozenset(out))) if out else None
    return mapit(I, st, a, site, fid, fn)


@m("core::iter::traits::iterator::Iterator::skip", "core::iter::traits::iterator::Iterator::take", "core::iter::traits::iterator::Iterator::step_by", "core::iter::traits::iterator::Iterator::rev")
def it_part(I, st, a, rec, site, fid):
    nm = rec["fn"].split("::")[-1]
    n = one(a[1]) if len(a) > 1 else None
    if nm == "skip" and n is not None and n.k == "i" and n.a[0] == 0:
        return mkit(iters(I, st, a[0]))
    if nm == "rev":
        outs = []
        for ps in iters(I, st, a[0]):
            outs.append(tuple((p[0], frozenset(T("part", "rev", t) if p[0] == "star" else t for t in p[1])) for p in reversed(ps)))
        return mkit(outs)
    if n is not None and n.k == "i" and nm in ("skip", "take", "step_by"):
        its = iters(I, st, a[0])
        if all(all(p[0] == "e" for p in ps) for ps in its):
            k = n.a[0]
            return mkit([ps[k:] if nm == "skip" else ps[:k] if nm == "take" else ps[::max(k, 1)] for ps in its])
    return mapit(I, st, a, site, fid, lambda p: ("star", frozenset(T("part", nm + (str(n.a[0]) if n is not None and n.k == "i" else ""), t) for t in p[1])))


@m("core::iter::traits::iterator::Iterator::enumerate")
def it_enum(I, st, a, rec, site, fid):
    outs = []
    for ps in iters(I, st, a[0]):
        known, q = True, []
        for i, p in enumerate(ps):
            known = known and p[0] == "e"
            q.append((p[0], v(T("tup", (v(T("i", i) if known and I.unroll else T("idx")), p[1])))))
        outs.append(tuple(q))
    return mkit(outs)


@m("core::iter::traits::iterator::Iterator::zip")
def it_zip(I, st, a, rec, site, fid):
    out = []
    bs = iters(I, st, a[1])
    for ps in iters(I, st, a[0]):
        for qs in bs:
            if all(p[0] == "e" for p in ps) and all(q[0] == "e" for q in qs):
                out.append(tuple(("e", v(T("tup", (p[1], q[1])))) for p, q in zip(ps, qs)))
            elif ps and qs:
                out.append((("star", v(T("tup", (frozenset().union(*[p[1] for p in ps]), frozenset().union(*[q[1] for q in qs]))))),))
            else:
                out.append(())
    return mkit(out)


@m("core::iter::traits::iterator::Iterator::chain")
def it_chain(I, st, a, rec, site, fid):
    return mkit([p + q for p in iters(I, st, a[0]) for q in iters(I, st, a[1])])


@m("core::iter::traits::iterator::Iterator::any", "core::iter::traits::iterator::Iterator::all")
def it_any(I, st, a, rec, site, fid):
    anyq = rec["fn"].endswith("any")
    res = set()
    for ps in iters(I, st, a[0]):
        rs = set()
        sure = False
        for p in ps:
            r = appl(I, st, a[1], [p[1]], site, fid)
            if r:
                rs |= r
                if p[0] == "e" and r == v(B(anyq)):
                    sure = True
                    break
        if sure:
            res.add(B(anyq))
        elif not rs or rs == {B(not anyq)}:
            res.add(B(not anyq))
        else:
            u = T("quant", "any" if anyq else "all", frozenset(rs)) if not any(_scan(x)[0] for x in rs) else TOP
            k = I.known(st, u)
            res.add(B(k) if k is not None else u)
    return norm(frozenset(res))


@m("core::iter::traits::iterator::Iterator::find", "core::iter::traits::iterator::Iterator::position", "core::iter::traits::iterator::Iterator::rposition", "core::iter::traits::iterator::Iterator::max_by_key", "core::iter::traits::iterator::Iterator::min_by_key",
   "core::iter::traits::iterator::Iterator::max_by", "core::iter::traits::iterator::Iterator::min_by", "core::iter::traits::iterator::Iterator::find_map")
def it_find(I, st, a, rec, site, fid):
    nm = rec["fn"].split("::")[-1]
    out = set()
    its = iters(I, st, a[0])
    if nm in ("find", "position", "find_map", "rposition"):
        for ps in its:
            open_ = True
            exact = all(p[0] == "e" for p in ps)
            order = list(enumerate(ps))
            if nm == "rposition":
                order.reverse()
            sure = True
            for i, p in order:
                r = appl(I, st, a[1], [p[1]], site, fid)
                if r is None:
                    continue
                if nm == "find_map":
                    hit = frozenset(t for t in r if not (t is NONE))
                    yes = p[0] == "e" and all(t.k == "adt" and t.a[1] == "Some" for t in r)
                    out |= hit
                else:
                    if r == v(B(False)):
                        continue
                    yes = p[0] == "e" and r == v(B(True))
                    if nm == "find":
                        V = p[1] if yes or p[0] == "e" else frozenset(T("part", "find", t) if t.k != "part" else t for t in p[1])
                        out.add(some(V))
                    elif exact:
                        out.add(some(v(T("i", i))))
                    else:
                        out.add(some(v(T("call", nm, (p[1], r or VTOP)))))
                if yes:
                    open_ = False
                    break
            if open_:
                out.add(NONE)
        return norm(frozenset(out))
    if nm.endswith("_by_key"):
        for ps in its:
            if ps and all(p[0] == "e" for p in ps):
                ks = [one(appl(I, st, a[1], [p[1]], site, fid) or VTOP) for p in ps]
                if all(k is not None and k.k == "i" for k in ks):
                    best = 0
                    for i, k in enumerate(ks):
                        if (nm[:3] == "max" and k.a[0] >= ks[best].a[0]) or (nm[:3] == "min" and k.a[0] < ks[best].a[0]):
                            best = i
                    out.add(some(ps[best][1]))
                    continue
            if not ps:
                out.add(NONE)
                continue
            for p in ps:
                out.add(some(frozenset(T("part", nm, t) for t in p[1])))
            out.add(NONE)
        return norm(frozenset(out))
    for ps in its:
        out.add(NONE)
        for p in ps:
            appl(I, st, a[1], [p[1], p[1]], site, fid)
            out.add(some(frozenset(T("part", nm, t) for t in p[1])))
    return norm(frozenset(out))


@m("core::iter::traits::iterator::Iterator::fold")
def it_fold(I, st, a, rec, site, fid):
    acc = a[1]
    for ps in iters(I, st, a[0]):
        for p in ps:
            for n in range(1 if p[0] == "e" else 8):
                r = appl(I, st, a[2], [acc, p[1]], site, fid)
                if r is None:
                    break
                na = widenv(acc, r, n) if p[0] != "e" else r
                if na == acc:
                    break
                acc = na
    return acc


@m("core::iter::traits::iterator::Iterator::for_each")
def it_for_each(I, st, a, rec, site, fid):
    its = iters(I, st, a[0])
    for ps in its:
        for p in ps:
            if p[0] == "e" and len(its) == 1:
                appl(I, st, a[1], [p[1]], site, fid, strong=True)
            else:
                appl(I, st, a[1], [p[1]], site, fid)
                appl(I, st, a[1], [p[1]], site, fid)
    return v(UNIT)


def _agg(nm):
    def f(I, st, a, rec, site, fid):
        its = iters(I, st, a[0])
        if its and all(all(p[0] == "e" for p in ps) for ps in its):
            out = set()
            for ps in its:
                xs = [one(p[1]) for p in ps]
                if nm == "count":
                    out.add(T("i", len(ps)))
                elif all(x is not None and x.k == "i" for x in xs):
                    n = 0 if nm == "sum" else 1
                    for x in xs:
                        n = n + x.a[0] if nm == "sum" else n * x.a[0]
                    out.add(T("i", n))
                else:
                    out = None
                    break
            if out:
                return frozenset(out)
        els = frozenset().union(*[p[1] for ps in iters(I, st, a[0]) for p in ps]) if iters(I, st, a[0]) else frozenset()
        return v(T("call", nm, (norm(els),) + tuple(a[1:]))) if not _scan(els)[0] else VTOP
    return f


for _n in ("count", "sum", "product"):
    EXACT["core::iter::traits::iterator::Iterator::" + _n] = _agg(_n)


def _aggopt(nm):
    def f(I, st, a, rec, site, fid):
        out = set()
        n = one(a[1]) if len(a) > 1 else None
        for ps in iters(I, st, a[0]):
            if all(p[0] == "e" for p in ps):
                xs = [one(p[1]) for p in ps]
                if not ps:
                    out.add(NONE)
                    continue
                if nm == "last":
                    out.add(some(ps[-1][1]))
                    continue
                if nm == "nth" and n is not None and n.k == "i":
                    out.add(some(ps[n.a[0]][1]) if n.a[0] < len(ps) else NONE)
                    continue
                if nm in ("max", "min") and all(x is not None and x.k == "i" for x in xs):
                    out.add(some(v(T("i", (max if nm == "max" else min)(x.a[0] for x in xs)))))
                    continue
                if nm in ("max", "min") and all(x is not None for x in xs):
                    b = _best(I, st, [v(x) for x in xs], nm, site, fid)
                    if b is not None:
                        out.add(some(b))
                        continue
            out.add(NONE)
            for p in ps:
                out.add(some(frozenset(T("part", nm, t) for t in p[1])))
        return norm(frozenset(out))
    return f


def _best(I, st, xs, nm, site, fid):
    """Largest or smallest of values with a comparison of their own."""
    best = xs[0]
    for x in xs[1:]:
        t = one(deref(I, st, x))
        b = f"<{t.a[0]} as core::cmp::Ord>::cmp" if t is not None and t.k == "adt" else None
        r = one(appl(I, st, v(T("fn", b)), [x, best], site, fid) or frozenset()) if b in I.p.bodies else None
        if r is None or r.k != "adt" or not r.a[0].endswith("Ordering"):
            return None
        if r.a[1] == "Greater" if nm == "min" else r.a[1] == "Less":
            continue
        if nm == "min" and r.a[1] == "Equal":
            continue
        best = x
    return best


for _n in ("max", "min", "last", "nth"):
    EXACT["core::iter::traits::iterator::Iterator::" + _n] = _aggopt(_n)
for _n in ("first", "last", "get", "get_mut", "last_mut", "first_mut"):
    EXACT["core::slice::{[T]}::" + _n] = None


def _sl(nm):
    def f(I, st, a, rec, site, fid):
        out = set()
        i = one(a[1]) if len(a) > 1 else None
        for t in deref(I, st, a[0]):
            if t.k in ("arr", "seq"):
                ps = pieces_of(I, t)
                if not ps:
                    out.add(NONE)
                    continue
                if ps[0][0] == "e" and (nm == "first" or (nm == "get" and i is not None and i.k == "i" and i.a[0] == 0)):
                    out.add(some(ps[0][1]))
                    continue
                if nm == "last" and ps[-1][0] == "e":
                    out.add(some(ps[-1][1]))
                    continue
                if nm == "get" and i is not None and i.k == "i" and all(p[0] == "e" for p in ps):
                    out.add(some(ps[i.a[0]][1]) if i.a[0] < len(ps) else NONE)
                    continue
                out.add(NONE)
                out.add(some(norm(frozenset().union(*[p[1] for p in ps]))))
            else:
                idx = a[1] if len(a) > 1 else v(T("i", 0 if nm == "first" else -1))
                u = T("call", "slice::get", (v(t), idx)) if not _scan(idx)[0] and not t.hasref else TOP
                out.add(u)
        return norm(frozenset(out))
    return f


for _n in ("first", "last", "get"):
    EXACT["core::slice::{[T]}::" + _n] = _sl(_n)
for _n in ("get_mut", "last_mut", "first_mut"):
    EXACT.pop("core::slice::{[T]}::" + _n)


@m("core::iter::traits::iterator::Iterator::collect", "core::iter::traits::collect::FromIterator::from_iter")
def collect(I, st, a, rec, site, fid):
    ga = rec.get("ga") or []
    tgt = ga[1] if len(ga) > 1 and "collect" in rec["fn"] else (ga[0] if ga else "")
    out = set()
    for ps in iters(I, st, a[0]):
        out.add(collect_to(I, tgt, ps))
    return norm(frozenset(x for t in out for x in (t if isinstance(t, frozenset) else (t,))))


def collect_to(I, tgt, ps):
    if tgt == "alloc::string::String":
        return S(*[("h", text(p[1])) if p[0] == "e" else ("star", text(p[1])) for p in ps])
    if tgt.startswith("core::result::Result<") or tgt.startswith("core::option::Option<"):
        isr = tgt.startswith("core::result")
        okp, errs, impossible = [], set(), False
        for p in ps:
            good = set()
            for t in p[1]:
                if t.k == "adt" and t.a[1] in ("Ok", "Some"):
                    good |= t.a[2][0][1]
                elif t.k == "adt" and t.a[1] == "Err":
                    errs |= t.a[2][0][1]
                elif t.k == "adt" and t.a[1] == "None":
                    errs.add(UNIT)
                elif t.k == "top":
                    good.add(TOP)
                    errs.add(TOP)
                else:
                    good.add(T("fld", T("fld", t, "@Ok" if isr else "@Some"), ".0"))
                    errs.add(T("fld", T("fld", t, "@Err"), ".0") if isr else UNIT)
            if good:
                okp.append((p[0], frozenset(good)))
            elif p[0] == "e":
                impossible = True
        inner = tgt[tgt.index("<") + 1:]
        c = collect_to(I, inner.split(",")[0] if inner.startswith("alloc::vec") else inner, tuple(okp))
        c = c if isinstance(c, frozenset) else v(c)
        out = set()
        if not impossible:
            out.add(ok(c) if isr else some(c))
        if errs:
            out.add(err(frozenset(errs)) if isr else NONE)
        return frozenset(out)
    if "Hash" in tgt or "BTree" in tgt:
        els = frozenset().union(*[p[1] for p in ps]) if ps else frozenset()
        return T("map", "hash" if "Hash" in tgt else "btree", norm(els)) if not _scan(els)[0] else TOP
    return SEQ(ps)


@m("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def vpush(I, st, a, rec, site, fid):
    out = set()
    for t in deref(I, st, a[0]):
        if t.k in ("seq", "arr"):
            out.add(SEQ(pieces_of(I, t) + (("e", a[1]),)))
        elif t.k == "top":
            out.add(TOP)
        else:
            out.add(SEQ((("star", v(T("elem", t))), ("e", a[1]))))
    setref(I, st, a[0], norm(frozenset(out)))
    if I.counted:       # keeps apart the rounds of a loop that fills a sequence up to a length
        t = one(frozenset(out))
        n = len(t.a[0]) if t is not None and t.k == "seq" and all(p[0] == "e" for p in t.a[0]) else None
        I.rekey(st, fid, ("p", site[1]), n if n is not None and n <= I.unroll else None)
    return v(UNIT)


@m("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append")
def vextend(I, st, a, rec, site, fid):
    s = rec.get("self") or ""
    if s == "alloc::string::String":
        cur = text(deref(I, st, a[0]))
        add = frozenset(S(*[("h", text(p[1])) if p[0] == "e" else ("star", text(p[1])) for p in ps]) for ps in iters(I, st, a[1]))
        setref(I, st, a[0], conc(cur, add))
        return v(UNIT)
    out = set()
    for t in deref(I, st, a[0]):
        if t.k in ("seq", "arr"):
            for ps in iters(I, st, a[1]):
                out.add(SEQ(pieces_of(I, t) + ps))
        elif t.k == "top":
            out.add(TOP)
        else:
            for ps in iters(I, st, a[1]):
                if "Hash" in s or "BTree" in s:
                    out.add(T("mapx", t))
                else:
                    out.add(SEQ((("star", v(T("elem", t))),) + ps))
    setref(I, st, a[0], norm(frozenset(out)))
    return v(UNIT)


@m("alloc::vec::Vec::is_empty", "core::slice::{[T]}::is_empty", "alloc::collections::vec_deque::VecDeque::is_empty")
def v_empty(I, st, a, rec, site, fid):
    out = set()
    for t in deref(I, st, a[0]):
        if t.k in ("seq", "arr"):
            ps = pieces_of(I, t)
            if not ps:
                out.add(B(True))
                continue
            if any(p[0] == "e" for p in ps):
                out.add(B(False))
                continue
        u = T("call", "is_empty", (v(t),)) if not t.hasref else TOP
        k = I.known(st, u)
        out.add(B(k) if k is not None else u)
    return norm(frozenset(out))


def span_of(r, n):
    """Bounds of a range value over a sequence of n elements, or (None, None)."""
    f = dict(r.a[2])
    g = lambda k: (lambda t: t.a[0] if t is not None and t.k == "i" else None)(one(f[k])) if k in f else None
    nm = r.a[0].split("::")[-1]
    if nm == "RangeFull":
        return 0, n
    if nm == "RangeFrom":
        return g("start"), n
    if nm == "RangeTo":
        return (0, g("end")) if g("end") is not None else (None, None)
    if nm == "Range" and g("end") is not None:
        return g("start"), g("end")
    return None, None


@m("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(I, st, a, rec, site, fid):
    out = set()
    i = one(a[1])
    r = one(a[0])
    mut = rec["fn"].endswith("index_mut")
    for t in deref(I, st, a[0]):
        exact = t.k in ("arr", "seq") and all(p[0] == "e" for p in pieces_of(I, t))
        if exact and i is not None and i.k == "adt" and "Range" in i.a[0]:
            ps = pieces_of(I, t)
            lo, hi = span_of(i, len(ps))
            if lo is not None and 0 <= lo <= hi <= len(ps):
                if mut and r is not None and r.k == "ref":
                    out.add(SEQ(tuple(("e", v(T("ref", r.a[0], r.a[1] + (f"[{j}]c",)))) for j in range(lo, hi))))
                else:
                    out.add(SEQ(tuple(ps[lo:hi])))
                continue
        if exact and mut and i is not None and i.k == "i" and r is not None and r.k == "ref" and 0 <= i.a[0] < len(pieces_of(I, t)):
            out.add(T("ref", r.a[0], r.a[1] + (f"[{i.a[0]}]c",)))
            continue
        if i is not None and i.k == "i" and t.k in ("arr", "seq") and all(p[0] == "e" for p in pieces_of(I, t)):
            ps = pieces_of(I, t)
            if 0 <= i.a[0] < len(ps):
                out |= ps[i.a[0]][1]
                continue
        if i is not None and i.k == "adt" and "Range" in i.a[0]:
            out.add(T("call", "slice", (v(t), a[1])) if not t.hasref and not _scan(a[1])[0] else TOP)
            continue
        if t.k in ("arr", "seq"):
            out |= I.elems(v(t))
        elif t.k == "top":
            out.add(TOP)
        else:
            out.add(T("call", "index", (v(t), a[1])) if not t.hasref and not _scan(a[1])[0] else TOP)
    return norm(frozenset(out))


@m("core::slice::{[T]}::contains", "alloc::slice::{[T]}::contains")
def contains(I, st, a, rec, site, fid):
    out = set()
    for t in deref(I, st, a[0]):
        if t.k in ("arr", "seq") and all(p[0] == "e" for p in pieces_of(I, t)):
            rs = set()
            hit = False
            for p in pieces_of(I, t):
                q = {cmp_eq(I, st, x, y) for x in p[1] for y in deref(I, st, a[1])}
                if q == {B(True)}:
                    hit = True
                rs |= q
            if hit:
                out.add(B(True))
                continue
            if rs <= {B(False)}:
                out.add(B(False))
                continue
        u = T("call", "contains", (v(t), deref(I, st, a[1]))) if not t.hasref and not _scan(deref(I, st, a[1]))[0] else TOP
        k = I.known(st, u)
        out.add(B(k) if k is not None else u)
    return norm(frozenset(out))


# vec![..]
@m("alloc::boxed::Box::new_uninit")
def new_uninit(I, st, a, rec, site, fid):
    cell = (I.fid("heap", fid, site), 0)
    st.set(cell[0], cell[1], v(T("adt", "?", "?", ())))
    return v(T("ref", cell, ()))


@m("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::assume_init")
def assume_init(I, st, a, rec, site, fid):
    out = set()

    def dig(t, d=0):
        if t.k == "arr":
            out.add(SEQ(tuple(("e", x) for x in t.a[0])))
        elif t.k == "seq":
            out.add(t)
        elif t.k == "adt" and d < 6:
            for _, x in t.a[2]:
                for y in x:
                    dig(y, d + 1)
    for t in deref(I, st, a[0]):
        dig(t)
    return frozenset(out) or VTOP


@m("alloc::vec::from_elem")
def from_elem(I, st, a, rec, site, fid):
    return v(SEQ((("star", a[0]),)))


# ---- maps (exact while all keys are known and told apart, otherwise opaque but stable under mutation)
def find_entry(I, st, t, K):
    """Index of the key among the entries, -1 if it is not there, None if that is not known."""
    if t.k != "map" or not (isinstance(t.a[1], tuple) or not t.a[1]) or len(K) != 1:
        return None
    k = next(iter(K))
    if k.hasref or k.k == "top":
        return None
    for i, (x, _) in enumerate(t.a[1] or ()):
        r = cmp_eq(I, st, x, k)
        if r == B(True):
            return i
        if r != B(False):
            return None
    return -1


def _mapedit(I, st, a, nm, isset):
    """insert / remove / clear on a followed map."""
    ts = deref(I, st, a[0])
    t = one(ts)
    if t is None or t.k != "map":
        return None
    if nm == "clear":
        setref(I, st, a[0], v(T("map", t.a[0], frozenset())))
        return v(UNIT)
    if len(a) < 2:
        return None
    K = deref(I, st, a[1])
    i = find_entry(I, st, t, K)
    if i is None:
        return None
    es = list(t.a[1] or ())
    old = es[i][1] if i >= 0 else None
    if nm == "insert":
        val = a[2] if len(a) > 2 else v(UNIT)
        if i >= 0:
            if not isset:
                es[i] = (es[i][0], val)
        else:
            es.append((next(iter(K)), val))
        r = B(i < 0) if isset else (some(old) if i >= 0 else NONE)
    elif nm == "remove":
        if i >= 0:
            del es[i]
        r = B(i >= 0) if isset else (some(old) if i >= 0 else NONE)
    else:
        return None
    new = T("map", t.a[0], tuple(es) if es else frozenset())
    for x in a[0]:
        if x.k != "ref" and len(a[0]) > 1:
            return None
    setref(I, st, a[0], v(new))
    return v(r)


def _mapmut(I, st, a, rec, site, fid):
    r = _mapedit(I, st, a, rec["fn"].split("::")[-1], "Set::" in rec["fn"])
    if r is not None:
        return r
    out = set()
    for t in deref(I, st, a[0]):
        out.add(t if t.k in ("mapx", "top") else T("mapx", t) if not t.hasref else TOP)
    setref(I, st, a[0], frozenset(out))
    nm = rec["fn"].split("::")[-1]
    return v(T("call", nm, tuple(VTOP if _scan(x)[0] else x for x in a), site))


for _t in ("std::collections::hash::map::HashMap::", "std::collections::hash::set::HashSet::", "alloc::collections::btree::map::BTreeMap::", "alloc::collections::btree::set::BTreeSet::"):
    for _n in ("insert", "remove", "clear", "entry", "get_mut", "retain"):
        EXACT[_t + _n] = _mapmut

    def _mkmap(kind):
        def f(I, st, a, rec, site, fid):
            return v(T("map", kind, frozenset()))
        return f
    EXACT[_t + "new"] = _mkmap("hash" if "hash" in _t else "btree")
    EXACT[_t + "with_capacity"] = _mkmap("hash" if "hash" in _t else "btree")

    def _pure(nm):
        def f(I, st, a, rec, site, fid):
            out = set()
            for t in deref(I, st, a[0]):
                k = deref(I, st, a[1]) if len(a) > 1 else frozenset()
                i = find_entry(I, st, t, k) if k else None
                if i is not None and i >= 0:
                    if nm == "get":
                        out.add(some(t.a[1][i][1]))
                        continue
                    if nm.startswith("contains"):
                        out.add(B(True))
                        continue
                if nm in ("is_empty", "len") and t.k == "map" and (isinstance(t.a[1], tuple) or not t.a[1]):
                    out.add(B(not t.a[1]) if nm == "is_empty" else T("i", len(t.a[1] or ())))
                    continue
                if t.k == "map" and (not t.a[1] or i == -1):
                    if nm == "get":
                        out.add(NONE)
                        continue
                    if nm in ("contains", "contains_key"):
                        out.add(B(False))
                        continue
                u = T("call", "map::" + nm, (v(t), k)) if not t.hasref and not _scan(k)[0] else TOP
                kn = I.known(st, u)
                out.add(B(kn) if kn is not None and nm.startswith("contains") else u)
            return norm(frozenset(out))
        return f
    for _n in ("get", "contains", "contains_key", "is_empty", "get_key_value", "len"):
        EXACT[_t + _n] = _pure(_n)


# ---- Option / Result
def cases(I, st, V, isr=False):
    """Splits an Option/Result value into payloads: (present set, absent/err set, may_absent)."""
    good, bad, absent = set(), set(), False
    for t in deref(I, st, V):
        if t.k == "adt" and t.a[1] in ("Some", "Ok"):
            good |= t.a[2][0][1]
        elif t.k == "adt" and t.a[1] == "None":
            absent = True
        elif t.k == "adt" and t.a[1] == "Err":
            absent = True
            bad |= t.a[2][0][1]
        elif t.k == "top":
            good.add(TOP)
            bad.add(TOP)
            absent = True
        else:
            en = "core::result::Result" if isr else "core::option::Option"
            k = None
            for d, f in st.facts.items():
                if d.k == "discr" and d.a[0] is t and len(f) == 1:
                    k = next(iter(f))
            some_i = 0 if isr else 1
            if k is None or k == some_i:
                good.add(T("fld", T("fld", t, "@Ok" if isr else "@Some"), ".0"))
            if k is None or k != some_i:
                absent = True
                bad.add(T("fld", T("fld", t, "@Err"), ".0") if isr else UNIT)
    return norm(frozenset(good)), norm(frozenset(bad)), absent


def isres(rec):
    return "Result" in rec["fn"].split("::<")[0] or "result::" in rec["fn"]


@m("core::option::Option::map", "core::result::Result::map")
def o_map(I, st, a, rec, site, fid):
    r = isres(rec)
    g, b, ab = cases(I, st, a[0], r)
    out = set()
    if g:
        x = appl(I, st, a[1], [g], site, fid, not ab)
        if x is not None:
            out.add(ok(x) if r else some(x))
    if ab:
        out.add(err(b) if r else NONE)
    return frozenset(out)


@m("core::option::Option::and_then", "core::result::Result::and_then")
def o_and_then(I, st, a, rec, site, fid):
    r = isres(rec)
    g, b, ab = cases(I, st, a[0], r)
    out = set()
    if g:
        out |= appl(I, st, a[1], [g], site, fid, not ab) or set()
    if ab:
        out.add(err(b) if r else NONE)
    return frozenset(out)


@m("core::option::Option::filter")
def o_filter(I, st, a, rec, site, fid):
    g, b, ab = cases(I, st, a[0])
    out = set()
    if g:
        r = appl(I, st, a[1], [g], site, fid, not ab)
        if r != v(B(False)):
            out.add(some(g))
        if r != v(B(True)):
            out.add(NONE)
    if ab:
        out.add(NONE)
    return frozenset(out)


@m("core::option::Option::or_else", "core::result::Result::or_else", "core::option::Option::or")
def o_or_else(I, st, a, rec, site, fid):
    r = isres(rec)
    g, b, ab = cases(I, st, a[0], r)
    out = set()
    if g:
        out.add(ok(g) if r else some(g))
    if ab:
        out |= (a[1] if rec["fn"].endswith("::or") else appl(I, st, a[1], [b] if r else [], site, fid, not g) or set())
    return frozenset(out)


@m("core::result::Result::map_err")
def r_map_err(I, st, a, rec, site, fid):
    g, b, ab = cases(I, st, a[0], True)
    out = set()
    if g:
        out.add(ok(g))
    if ab:
        x = appl(I, st, a[1], [b], site, fid, not g)
        out.add(err(x if x is not None else VTOP))
    return frozenset(out)


@m("anyhow::Context::context", "anyhow::Context::with_context")
def r_context(I, st, a, rec, site, fid):
    isr = "Result" in (rec.get("self") or "Result")
    if rec["fn"].endswith("with_context"):
        appl(I, st, a[1], [], site, fid)
    out = set()
    for t in deref(I, st, a[0]):
        if t.k == "adt" and t.a[1] in ("None",):
            out.add(err(v(T("ctx"))))
        elif t.k == "adt" and t.a[1] == "Some":
            out.add(ok(t.a[2][0][1]))
        elif not isr:
            g, b, ab = cases(I, st, v(t))
            if g:
                out.add(ok(g))
            if ab:
                out.add(err(v(T("ctx"))))
        else:
            out.add(t)
    return frozenset(out)


@m("core::option::Option::ok_or", "core::option::Option::ok_or_else")
def o_ok_or(I, st, a, rec, site, fid):
    g, b, ab = cases(I, st, a[0])
    out = set()
    if g:
        out.add(ok(g))
    if ab:
        x = a[1] if rec["fn"].endswith("ok_or") else appl(I, st, a[1], [], site, fid, not g)
        out.add(err(x if x is not None else VTOP))
    return frozenset(out)


@m("core::result::Result::ok")
def r_ok(I, st, a, rec, site, fid):
    g, b, ab = cases(I, st, a[0], True)
    out = set()
    if g:
        out.add(some(g))
    if ab:
        out.add(NONE)
    return frozenset(out)


@m("core::result::Result::err")
def r_err(I, st, a, rec, site, fid):
    g, b, ab = cases(I, st, a[0], True)
    out = set()
    if ab:
        out.add(some(b))
    if g:
        out.add(NONE)
    return frozenset(out)


@m("core::option::Option::unwrap_or", "core::result::Result::unwrap_or", "core::option::Option::unwrap_or_else", "core::result::Result::unwrap_or_else",
   "core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def o_unwrap_or(I, st, a, rec, site, fid):
    r = isres(rec)
    g, b, ab = cases(I, st, a[0], r)
    out = set(g)
    if ab:
        if rec["fn"].endswith("unwrap_or"):
            out |= a[1]
        elif rec["fn"].endswith("default"):
            ty = (rec.get("ga") or [""])[0]
            out |= v(default_of(ty))
        else:
            out |= appl(I, st, a[1], [b] if r else [], site, fid, not g) or set()
    return norm(frozenset(out))


def default_of(ty):
    if ty == "alloc::string::String" or ty.endswith("str"):
        return S()
    if ty.startswith("alloc::vec::Vec"):
        return SEQ(())
    if ty == "bool":
        return B(False)
    if ty in ("i32", "u32", "usize", "i64", "u64", "u8", "i8", "isize", "u16", "i16"):
        return T("i", 0)
    if ty.startswith("core::option::Option"):
        return NONE
    if "HashMap" in ty or "HashSet" in ty:
        return T("map", "hash", frozenset())
    if "BTree" in ty:
        return T("map", "btree", frozenset())
    return T("default", ty)


@m("core::default::Default::default")
def default(I, st, a, rec, site, fid):
    if (rec.get("res") or "") in I.p.bodies:
        return None
    return v(default_of(rec.get("self") or ""))


@m("core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap", "core::result::Result::expect")
def o_unwrap(I, st, a, rec, site, fid):
    g, b, ab = cases(I, st, a[0], isres(rec))
    return g


@m("core::option::Option::map_or", "core::option::Option::map_or_else", "core::result::Result::map_or", "core::option::Option::is_some_and", "core::option::Option::is_none_or", "core::result::Result::is_ok_and")
def o_map_or(I, st, a, rec, site, fid):
    r = isres(rec)
    g, b, ab = cases(I, st, a[0], r)
    nm = rec["fn"].split("::")[-1]
    f = a[2] if nm.startswith("map_or") else a[1]
    out = set()
    if g:
        out |= appl(I, st, f, [g], site, fid, not ab) or set()
    if ab:
        if nm == "map_or":
            out |= a[1]
        elif nm == "map_or_else":
            out |= appl(I, st, a[1], [b] if r else [], site, fid, not g) or set()
        else:
            out.add(B(nm == "is_none_or"))
    return norm(frozenset(out))


@m("core::option::Option::is_some", "core::option::Option::is_none", "core::result::Result::is_ok", "core::result::Result::is_err")
def o_is(I, st, a, rec, site, fid):
    nm = rec["fn"].split("::")[-1]
    en = "core::option::Option" if "option" in rec["fn"] else "core::result::Result"
    want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[nm]
    return I.binop(st, "Eq", I.discr(st, deref(I, st, a[0]), en), v(T("i", want)))


@m("core::option::Option::take")
def o_take(I, st, a, rec, site, fid):
    V = deref(I, st, a[0])
    setref(I, st, a[0], v(NONE))
    return V


@m("core::mem::take", "core::mem::replace")
def mem_take(I, st, a, rec, site, fid):
    V = deref(I, st, a[0])
    setref(I, st, a[0], a[1] if len(a) > 1 else v(default_of((rec.get("ga") or [""])[0])))
    return V


@m("core::ops::try_trait::Try::branch")
def try_branch(I, st, a, rec, site, fid):
    s = rec.get("self") or ""
    isr = s.startswith("core::result::Result")
    CF = "core::ops::control_flow::ControlFlow"
    out = set()
    for t in a[0]:
        g, b, ab = cases(I, st, v(t), isr)
        if g:
            out.add(T("adt", CF, "Continue", (("0", g),)))
        if ab:
            out.add(T("adt", CF, "Break", (("0", v(err(b) if isr else NONE)),)))
    return norm(frozenset(out))


@m("core::ops::try_trait::FromResidual::from_residual")
def from_residual(I, st, a, rec, site, fid):
    return a[0]


@m("core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut")
def fn_call(I, st, a, rec, site, fid):
    t = one(a[1])
    args = list(t.a[0]) if t is not None and t.k == "tup" else [a[1]]
    r = appl(I, st, a[0], args, site, fid, strong=True)
    return r if r is not None else []


@m("core::option::Option::insert", "core::option::Option::get_or_insert_with", "core::option::Option::replace")
def o_insert(I, st, a, rec, site, fid):
    setref(I, st, a[0], v(some(a[1] if len(a) > 1 else VTOP)))
    return VTOP


@m("core::ops::arith::Neg::neg")
def neg(I, st, a, rec, site, fid):
    return frozenset(T("un", "Neg", t) for t in a[0])


@m("core::ops::bit::Not::not")
def not_(I, st, a, rec, site, fid):
    return frozenset(B(not t.a[0]) if t.k == "b" else T("un", "Not", t) for t in a[0])


@m("core::intrinsics::discriminant_value")
def discval(I, st, a, rec, site, fid):
    ty = (rec.get("ga") or [""])[0]
    return I.discr(st, deref(I, st, a[0]), ty)


# ---- vectors: the rest
def seqs(I, st, V):
    return [(t, pieces_of(I, t) if t.k in ("seq", "arr") else None) for t in deref(I, st, V)]


@m("alloc::vec::Vec::retain", "alloc::collections::vec_deque::VecDeque::retain", "alloc::vec::Vec::retain_mut")
def v_retain(I, st, a, rec, site, fid):
    out = set()
    for t, ps in seqs(I, st, a[0]):
        if ps is None:
            ps = pieces_of(I, t)
        q = []
        for p in ps:
            r = appl(I, st, a[1], [p[1]], site, fid)
            if r is None or r == v(B(False)):
                continue
            if r == v(B(True)):
                q.append(p)
            else:
                q.append(("star", frozenset(T("part", "filter", x) if x.k != "part" else x for x in p[1])))
        out.add(SEQ(tuple(q)))
    setref(I, st, a[0], norm(frozenset(out)))
    return v(UNIT)


@m("alloc::vec::Vec::pop", "alloc::collections::vec_deque::VecDeque::pop_back", "alloc::collections::vec_deque::VecDeque::pop_front")
def v_pop(I, st, a, rec, site, fid):
    out, new = set(), set()
    front = rec["fn"].endswith("front")
    for t, ps in seqs(I, st, a[0]):
        if ps is None:
            out |= {NONE, some(v(T("elem", t) if t.k != "top" else TOP))}
            new.add(T("seq", (("star", v(T("elem", t) if t.k != "top" else TOP)),)))
            continue
        if not ps:
            out.add(NONE)
            new.add(SEQ(()))
            continue
        e = ps[0] if front else ps[-1]
        if e[0] == "e":
            out.add(some(e[1]))
            new.add(SEQ(ps[1:] if front else ps[:-1]))
        else:
            out |= {NONE, some(norm(frozenset().union(*[p[1] for p in ps])))}
            new.add(SEQ((("star", norm(frozenset().union(*[p[1] for p in ps]))),)))
    setref(I, st, a[0], norm(frozenset(new)))
    return norm(frozenset(out))


@m("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def v_remove(I, st, a, rec, site, fid):
    out, new = set(), set()
    i = one(a[1])
    for t, ps in seqs(I, st, a[0]):
        if ps is not None and i is not None and i.k == "i" and all(p[0] == "e" for p in ps) and i.a[0] < len(ps) and rec["fn"].endswith("::remove"):
            out |= ps[i.a[0]][1]
            new.add(SEQ(ps[:i.a[0]] + ps[i.a[0] + 1:]))
        else:
            els = I.elems(v(t))
            out |= els
            new.add(SEQ((("star", els),)))
    setref(I, st, a[0], norm(frozenset(new)))
    return norm(frozenset(out))


@m("alloc::vec::Vec::insert")
def v_insert(I, st, a, rec, site, fid):
    new = set()
    i = one(a[1])
    for t, ps in seqs(I, st, a[0]):
        if ps is not None and i is not None and i.k == "i" and (i.a[0] == 0 or all(p[0] == "e" for p in ps)) and i.a[0] <= len(ps):
            new.add(SEQ(ps[:i.a[0]] + (("e", a[2]),) + ps[i.a[0]:]))
        else:
            new.add(SEQ((("star", norm(I.elems(v(t)) | a[2])),)))
    setref(I, st, a[0], norm(frozenset(new)))
    return v(UNIT)


@m("alloc::vec::Vec::truncate", "alloc::vec::Vec::clear", "alloc::string::String::clear")
def v_trunc(I, st, a, rec, site, fid):
    if rec["fn"].endswith("clear"):
        setref(I, st, a[0], v(S() if "String" in rec["fn"] else SEQ(())))
        return v(UNIT)
    i = one(a[1])
    new = set()
    for t, ps in seqs(I, st, a[0]):
        if ps is not None and i is not None and i.k == "i" and all(p[0] == "e" for p in ps):
            new.add(SEQ(ps[:i.a[0]]))
        else:
            new.add(SEQ((("star", frozenset(T("part", "truncate", x) for x in I.elems(v(t)))),)))
    setref(I, st, a[0], norm(frozenset(new)))
    return v(UNIT)


@m("core::slice::{[T]}::reverse")
def v_reverse(I, st, a, rec, site, fid):
    new = set()
    for t, ps in seqs(I, st, a[0]):
        if ps is None:
            new.add(SEQ((("star", v(T("part", "rev", T("elem", t)))),)))
        else:
            new.add(SEQ(tuple((p[0], p[1] if p[0] == "e" else frozenset(T("part", "rev", x) for x in p[1])) for p in reversed(ps))))
    setref(I, st, a[0], norm(frozenset(new)))
    return v(UNIT)


def _sorted(I, st, ps, key=None, rev=False):
    """Pieces sorted when every key is a constant of one kind; otherwise an unordered repetition."""
    if all(p[0] == "e" for p in ps):
        if len(ps) < 2:
            return ps
        ks = []
        for p in ps:
            k = key(p) if key else p[1]
            k = one(k) if k is not None else None
            x = lit(k) if k is not None and k.k == "str" else k.a[0] if k is not None and k.k in ("i", "ch") else None
            ks.append(x)
        if all(k is not None for k in ks) and len({type(k) for k in ks}) == 1:
            o = sorted(range(len(ps)), key=lambda i: ks[i], reverse=rev)
            return tuple(ps[i] for i in o)
    if not ps:
        return ps
    return (("star", frozenset(T("part", "sorted", x) for p in ps for x in p[1])),)


@m("alloc::slice::{[T]}::sort", "core::slice::{[T]}::sort_unstable")
def v_sort(I, st, a, rec, site, fid):
    new = set()
    for t, ps in seqs(I, st, a[0]):
        new.add(SEQ(_sorted(I, st, ps if ps is not None else pieces_of(I, t))))
    setref(I, st, a[0], norm(frozenset(new)))
    return v(UNIT)


def _order(I, st, ps, f, site, fid):
    """Pieces in the order the comparison function gives, if it decides every pair."""
    import functools
    if not all(p[0] == "e" for p in ps) or len(ps) > 12:
        return None
    bad = []

    def cmp(x, y):
        r = one(appl(I, st, f, [x[1], y[1]], site, fid))
        if r is None or r.k != "adt" or not r.a[0].endswith("Ordering"):
            if not I.hash_ordered:      # rules that do not depend on the order keep the given one
                bad.append(1)
            return 0
        return {"Less": -1, "Equal": 0, "Greater": 1}[r.a[1]]
    o = sorted(ps, key=functools.cmp_to_key(cmp))
    return None if bad else tuple(o)


@m("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def ord_cmp(I, st, a, rec, site, fid):
    if (rec.get("res") or "") in I.p.bodies:
        return None
    x, y = one(deref(I, st, a[0])), one(deref(I, st, a[1]))
    if x is None or y is None:
        return None
    k = lambda t: lit(t) if t.k == "str" else t.a[0] if t.k in ("i", "ch", "b") else None
    kx, ky = k(x), k(y)
    if kx is None or ky is None or type(kx) is not type(ky):
        return None
    r = v(T("adt", "core::cmp::Ordering", "Less" if kx < ky else "Greater" if kx > ky else "Equal", ()))
    return v(some(r)) if rec["fn"].endswith("partial_cmp") else r


@m("core::cmp::PartialOrd::ge", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::lt")
def part_ord(I, st, a, rec, site, fid):
    """Through the type's own comparison; on literals directly."""
    op = rec["fn"].split("::")[-1]
    good = {"ge": ("Greater", "Equal"), "gt": ("Greater",), "le": ("Less", "Equal"), "lt": ("Less",)}[op]
    b = f"<{rec.get('self')} as core::cmp::PartialOrd>::partial_cmp"
    if b in I.p.bodies:
        V = appl(I, st, v(T("fn", b)), [a[0], a[1]], site, fid)
    else:
        V = ord_cmp(I, st, a, {"fn": "core::cmp::PartialOrd::partial_cmp"}, site, fid)
    out = set()
    for t in V or ():
        if t.k != "adt" or t.a[1] not in ("Some", "None"):
            return None
        if t.a[1] == "None":
            out.add(B(False))
            continue
        for o in t.a[2][0][1]:
            if o.k != "adt" or not o.a[0].endswith("Ordering"):
                return None
            out.add(B(o.a[1] in good))
    return frozenset(out) if out else None


@m("alloc::slice::{[T]}::sort_by", "core::slice::{[T]}::sort_unstable_by")
def v_sort_by(I, st, a, rec, site, fid):
    new = set()
    for t, ps in seqs(I, st, a[0]):
        ps = ps if ps is not None else pieces_of(I, t)
        if ps and not (len(ps) == 1 and ps[0][0] == "e"):
            o = _order(I, st, ps, a[1], site, fid)
            if o is not None:
                new.add(SEQ(o))
                continue
            for p in ps:
                appl(I, st, a[1], [p[1], p[1]], site, fid)
            ps = (("star", frozenset(T("part", "sorted", x) for p in ps for x in p[1])),)
        new.add(SEQ(ps))
    setref(I, st, a[0], norm(frozenset(new)))
    return v(UNIT)


@m("alloc::slice::{[T]}::sort_by_key", "core::slice::{[T]}::sort_unstable_by_key", "alloc::slice::{[T]}::sort_by_cached_key")
def v_sort_by_key(I, st, a, rec, site, fid):
    new = set()
    for t, ps in seqs(I, st, a[0]):
        ps = ps if ps is not None else pieces_of(I, t)
        new.add(SEQ(_sorted(I, st, ps, lambda p: appl(I, st, a[1], [p[1]], site, fid))))
    setref(I, st, a[0], norm(frozenset(new)))
    return v(UNIT)


@m("core::slice::{[T]}::split_first", "core::slice::{[T]}::split_last")
def v_split_first(I, st, a, rec, site, fid):
    out = set()
    last = rec["fn"].endswith("last")
    for t, ps in seqs(I, st, a[0]):
        if ps is not None and not ps:
            out.add(NONE)
        elif ps is not None and ps[-1 if last else 0][0] == "e":
            e = ps[-1 if last else 0]
            out.add(some(v(T("tup", (e[1], v(SEQ(ps[:-1] if last else ps[1:])))))))
        else:
            els = I.elems(v(t))
            out |= {NONE, some(v(T("tup", (els, v(SEQ((("star", els),))))))) if not _scan(els)[0] else TOP}
    return norm(frozenset(out))


@m("core::slice::{[T]}::swap", "alloc::vec::Vec::dedup")
def v_swap(I, st, a, rec, site, fid):
    new = set()
    i, j = (one(a[1]), one(a[2])) if len(a) > 2 else (None, None)
    for t, ps in seqs(I, st, a[0]):
        if ps is not None and i is not None and j is not None and i.k == j.k == "i" and all(p[0] == "e" for p in ps):
            q = list(ps)
            q[i.a[0]], q[j.a[0]] = q[j.a[0]], q[i.a[0]]
            new.add(SEQ(tuple(q)))
        elif ps is not None and len(ps) < 2 and all(p[0] == "e" for p in ps):
            new.add(SEQ(ps))
        else:
            new.add(SEQ((("star", I.elems(v(t))),)))
    setref(I, st, a[0], norm(frozenset(new)))
    return v(UNIT)


@m("core::slice::{[T]}::windows", "core::slice::{[T]}::chunks")
def v_windows(I, st, a, rec, site, fid):
    n = one(a[1])
    outs = []
    for t, ps in seqs(I, st, a[0]):
        if ps is not None and n is not None and n.k == "i" and all(p[0] == "e" for p in ps):
            k = n.a[0]
            if rec["fn"].endswith("windows"):
                outs.append(tuple(("e", v(SEQ(ps[i:i + k]))) for i in range(len(ps) - k + 1)))
            else:
                outs.append(tuple(("e", v(SEQ(ps[i:i + k]))) for i in range(0, len(ps), k)))
        else:
            els = I.elems(v(t))
            outs.append((("star", v(SEQ((("star", els),)))),))
    return mkit(outs)


@m("core::iter::sources::once::once")
def once(I, st, a, rec, site, fid):
    return mkit([(("e", a[0]),)])


@m("core::iter::sources::empty::empty")
def empty(I, st, a, rec, site, fid):
    return mkit([()])


@m("core::ptr::null_mut", "core::ptr::null")
def null(I, st, a, rec, site, fid):
    return v(T("null"))


# ---- strings: the rest
def strit(name, f):
    """Iterator over parts of a string; f(text, consts) -> list of terms for literal text."""
    def g(I, st, a, rec, site, fid):
        rest = [one(deref(I, st, x)) for x in a[1:]]
        cs = [None if x is None else lit(x) if x.k == "str" else x.a[0] if x.k in ("ch", "i") else None for x in rest]
        outs = []
        for t in deref(I, st, a[0]):
            s = lit(t)
            if s is not None and len(s) < (4000 if name == "lines" else 200) and all(c is not None for c in cs):
                r = f(s, *cs)
                outs.append(tuple(("e", v(x)) for x in r))
            elif name == "lines" and t.k == "str" and all(isinstance(p, str) or p[0] == "h" and names(p[1]) for p in t.a[0]):
                rows = [[]]
                for p in t.a[0]:
                    for i, q in enumerate(p.split("\n") if isinstance(p, str) else [p]):
                        if i:
                            rows.append([])
                        if q:
                            rows[-1].append(q)
                outs.append(tuple(("e", v(S(*r))) for r in rows[:-1 if not rows[-1] else None]))
            else:
                outs.append((("star", v(T("part", name, t)) if not t.hasref else VTOP),))
        return mkit(outs)
    return g


for _n, _f in {
    "chars": lambda s: [T("ch", c) for c in s], "bytes": lambda s: [T("i", c) for c in s.encode()],
    "char_indices": lambda s: [T("tup", (v(T("i", len(s[:i].encode()))), v(T("ch", c)))) for i, c in enumerate(s)],
    "split": lambda s, x: [S(y) for y in s.split(x)], "lines": lambda s: [S(y) for y in s.split("\n")[:-1 if s.endswith("\n") else None]] if s else [],
    "split_whitespace": lambda s: [S(y) for y in s.split()], "matches": lambda s, x: [S(x)] * s.count(x),
    "splitn": lambda s, n, x: [S(y) for y in s.split(x, n - 1)], "rsplit": lambda s, x: [S(y) for y in reversed(s.split(x))],
}.items():
    EXACT["core::str::{str}::" + _n] = strit(_n, _f)


def _opt(x):
    return NONE if x is None else some(v(x))


def _find(s, x):
    i = s.find(x)
    return NONE if i < 0 else some(v(T("i", len(s[:i].encode()))))


def _rfind(s, x):
    i = s.rfind(x)
    return NONE if i < 0 else some(v(T("i", len(s[:i].encode()))))


def _tm(s, x, l, r):
    k = 1 if isinstance(x, tuple) else len(x)
    while l and x and s.startswith(x):
        s = s[k:]
    while r and x and s.endswith(x):
        s = s[:-k]
    return S(s)


for _n, _f in {
    "strip_prefix": lambda s, x: _opt(S(s[len(x):]) if s.startswith(x) else None), "strip_suffix": lambda s, x: _opt(S(s[:len(s) - len(x)]) if s.endswith(x) else None),
    "find": _find, "rfind": _rfind, "trim_end_matches": lambda s, x: _tm(s, x, False, True), "trim_start_matches": lambda s, x: _tm(s, x, True, False),
    "trim_matches": lambda s, x: _tm(s, x, True, True),
    "split_once": lambda s, x: _opt(T("tup", (v(S(s.split(x, 1)[0])), v(S(s.split(x, 1)[1])))) if x in s else None),
    "rsplit_once": lambda s, x: _opt(T("tup", (v(S(s.rsplit(x, 1)[0])), v(S(s.rsplit(x, 1)[1])))) if x in s else None),
    "eq_ignore_ascii_case": lambda s, x: B(s.lower() == x.lower()), "to_owned": lambda s: S(s), "is_char_boundary": lambda s, n: B(True),
}.items():
    EXACT["core::str::{str}::" + _n] = strfold(_n, _f)


def chfold(name, f):
    def g(I, st, a, rec, site, fid):
        out = set()
        for t in deref(I, st, a[0]):
            if t.k == "ch" and t.a[0]:
                out.add(f(t.a[0]))
            elif t.k == "i" and 0 <= t.a[0] < 256:
                out.add(f(chr(t.a[0])))
            else:
                u = T("call", name, (v(t),)) if not t.hasref else TOP
                k = I.known(st, u)
                out.add(B(k) if k is not None else u)
        return norm(frozenset(out))
    return g


for _n, _f in {
    "is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isdigit, "is_whitespace": str.isspace, "is_uppercase": str.isupper, "is_lowercase": str.islower,
    "is_ascii_digit": lambda c: c in "0123456789", "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
    "is_ascii_uppercase": lambda c: c.isascii() and c.isupper(), "is_ascii_lowercase": lambda c: c.isascii() and c.islower(), "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c",
    "is_ascii_graphic": lambda c: "!" <= c <= "~", "is_ascii": str.isascii, "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF", "is_control": lambda c: ord(c) < 32 or ord(c) == 127,
    "is_ascii_punctuation": lambda c: c.isascii() and "!" <= c <= "~" and not c.isalnum(),
}.items():
    g = chfold(_n, (lambda f: lambda c: B(f(c)))(_f))
    for _q in ("core::char::methods::{char}::", "core::num::{u8}::"):
        EXACT[_q + _n] = g


@m("core::str::{str}::parse")
def s_parse(I, st, a, rec, site, fid):
    ty = (rec.get("ga") or [""])[-1]
    out = set()
    for t in deref(I, st, a[0]):
        s = lit(t)
        if s is not None and ty in BITS:
            try:
                n = int(s, 10)
                b = BITS[ty]
                lo, hi = (0, 2 ** b) if ty[0] == "u" else (-2 ** (b - 1), 2 ** (b - 1))
                if lo <= n < hi and re.fullmatch(r"[+-]?[0-9]+", s):
                    out.add(ok(v(T("i", n))))
                else:
                    out.add(err(v(T("parseerr"))))
            except ValueError:
                out.add(err(v(T("parseerr"))))
        else:
            out.add(T("call", "parse", (v(t), v(S(ty)))) if not t.hasref else TOP)
    return norm(frozenset(out))


BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128, "i128": 128}


@m("core::bool::{bool}::then", "core::bool::{bool}::then_some")
def b_then(I, st, a, rec, site, fid):
    V = deref(I, st, a[0])
    out = set()
    if V != v(B(False)):
        x = a[1] if rec["fn"].endswith("some") else appl(I, st, a[1], [], site, fid, V == v(B(True)))
        out.add(some(x if x is not None else VTOP))
    if V != v(B(True)):
        out.add(NONE)
    return frozenset(out)


@m("core::option::Option::zip")
def o_zip(I, st, a, rec, site, fid):
    g, _, ab = cases(I, st, a[0])
    h, _, ab2 = cases(I, st, a[1])
    out = set()
    if g and h:
        out.add(some(v(T("tup", (g, h)))))
    if ab or ab2:
        out.add(NONE)
    return frozenset(out)


@m("core::option::Option::and", "core::option::Option::xor")
def o_and(I, st, a, rec, site, fid):
    g, _, ab = cases(I, st, a[0])
    out = set()
    if g:
        out |= a[1]
    if ab:
        out.add(NONE)
    return frozenset(out)


@m("core::result::Result::is_ok_and", "core::option::Option::is_some_and")
def o_is_and(I, st, a, rec, site, fid):
    return o_map_or(I, st, a, rec, site, fid)


@m("core::option::Option::flatten")
def o_flatten(I, st, a, rec, site, fid):
    g, _, ab = cases(I, st, a[0])
    return frozenset(g) | (v(NONE) if ab else frozenset())


def arith(ty, how, o):
    bits = {"usize": 64, "isize": 64}.get(ty) or int(ty[1:])
    lo, hi = (0, (1 << bits) - 1) if ty[0] == "u" else (-(1 << bits - 1), (1 << bits - 1) - 1)

    def g(I, st, a, rec, site, fid):
        x, y = one(deref(I, st, a[0])), one(deref(I, st, a[1]))
        if x is not None and y is not None and x.k == "i" and y.k == "i":
            p, q = x.a[0], y.a[0]
            if o in ("div", "rem", "div_euclid", "rem_euclid") and q == 0:
                return v(NONE) if how == "checked" else frozenset()
            if o in ("shl", "shr") and not 0 <= q < bits:
                if how == "checked":
                    return v(NONE)
                q %= bits
            qt = lambda: abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
            r = {"add": lambda: p + q, "sub": lambda: p - q, "mul": lambda: p * q, "div": qt, "rem": lambda: p - qt() * q, "div_euclid": lambda: p // q if q > 0 else -(p // -q),
                 "rem_euclid": lambda: p % abs(q), "shl": lambda: ((p << q) - lo) % (1 << bits) + lo, "shr": lambda: p >> q, "pow": lambda: p ** min(q, 200)}[o]()
            if how == "wrapping":
                return v(T("i", (r - lo) % (1 << bits) + lo))
            if how == "saturating":
                return v(T("i", max(lo, min(hi, r))))
            return v(some(v(T("i", r))) if lo <= r <= hi else NONE)
        u = T("call", how + "_" + o, (a[0], a[1])) if not _scan(a[0])[0] and not _scan(a[1])[0] else TOP
        return v(u) if how != "checked" else frozenset([NONE, some(v(u))])
    return g


for _t in ("i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "usize", "isize"):
    for _h in ("wrapping", "saturating", "checked"):
        for _o in ("add", "sub", "mul", "div", "rem", "shl", "shr", "pow", "div_euclid", "rem_euclid"):
            EXACT.setdefault(f"core::num::{{{_t}}}::{_h}_{_o}", arith(_t, _h, _o))


def arith1(ty, how, o):
    f = arith(ty, how, {"neg": "sub", "abs": "sub"}[o])

    def g(I, st, a, rec, site, fid):
        x = one(deref(I, st, a[0]))
        if x is not None and x.k == "i":
            if o == "abs" and x.a[0] >= 0:
                return v(x) if how != "checked" else v(some(v(x)))
            return f(I, st, [v(T("i", 0)), v(x)], rec, site, fid)
        u = T("call", how + "_" + o, (a[0],)) if not _scan(a[0])[0] else TOP
        return v(u) if how != "checked" else frozenset([NONE, some(v(u))])
    return g


for _t in ("i8", "i16", "i32", "i64", "i128", "isize"):
    for _h in ("wrapping", "saturating", "checked"):
        for _o in ("neg", "abs"):
            EXACT.setdefault(f"core::num::{{{_t}}}::{_h}_{_o}", arith1(_t, _h, _o))


def _minmax(nm):
    def g(I, st, a, rec, site, fid):
        if (rec.get("res") or "") in I.p.bodies:
            return None
        x, y = one(deref(I, st, a[0])), one(deref(I, st, a[1]))
        if x is not None and y is not None and x.k == y.k and x.k in ("i", "ch", "b"):
            return v(x if (x.a[0] <= y.a[0]) == (nm == "min") else y)
        return v(T("call", nm, (a[0], a[1])) if not _scan(a[0])[0] and not _scan(a[1])[0] else TOP)
    return g


for _n in ("min", "max"):
    EXACT.setdefault("core::cmp::Ord::" + _n, _minmax(_n))
    EXACT.setdefault("core::cmp::" + _n, _minmax(_n))


@m("core::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains")
def range_contains(I, st, a, rec, site, fid):
    r, x = one(deref(I, st, a[0])), one(deref(I, st, a[1]))
    if r is None or x is None or x.k not in ("i", "ch"):
        return None
    f = dict(r.a[2]) if r.k == "adt" else {}
    lo, hi = one(f.get("start", frozenset())), one(f.get("end", frozenset()))
    if lo is None or hi is None or lo.k != x.k or hi.k != x.k:
        return None
    return v(B(lo.a[0] <= x.a[0] < hi.a[0] if "Inclusive" not in r.a[0] else lo.a[0] <= x.a[0] <= hi.a[0]))
