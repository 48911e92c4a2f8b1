"""The whole-program pipeline (parsed program -> Rust text) over described programs: declarations are followed into the
text, functions are left as holes that stand for the function handed to the function generator."""
import re
from absint import *
from decls import *
import models
import cg

HIRN = "decy_hir::"


def ok(x):
    return v(T("adt", "core::result::Result", "Ok", (("0", x),)))


def pipeline(c, entry, program, unroll=150, functions=False):

    """Values (texts) the entry returns for a program the parser hands over."""
    b = c.P.fn(entry)
    handed = []     # functions and statements handed to the generators, by the number in their stand-in text

    def hook(I, st, name, rec, args, site):
        s = name.split("::")[-1]
        if s in ("parse", "parse_file") and "CParser" in name:
            return [(st, ok(v(program)))]
        if s == "new" and "CParser" in name:
            return [(st, ok(v(sym("parser"))))]
        if s == "preprocess_includes":
            return [(st, ok(v(S("source"))))]
        if functions:
            return None
        if s == "transform_function_with_ownership":
            return [(st, v(T("tup", (args[0], v(sym("signature"))))))]
        if s in ("generate_function_with_lifetimes_and_structs", "generate_function_with_structs", "generate_function", "generate_statement_with_context") and "::tests::" not in name:
            f = frozenset(I.strip(st, models.deref(I, st, args[1])))
            if f not in handed:
                handed.append(f)
            return [(st, v(S(f"\x01#{handed.index(f)}\x02")))]
        if s in ("build_slice_func_arg_mappings", "build_all_function_sigs", "get_string_iteration_params"):
            return [(st, v(SEQ(())))]
        return None
    I = c.interp(on_call=hook, unroll=unroll, root=b["name"])
    I.hash_ordered = True
    I.recurse = 6
    I.counted = True
    I.fresh = True
    I.maxdepth = max(I.maxdepth, 24)
    return cg.runp(c, I, b, {0: v(program)} if entry == "process_ast_to_rust" else {}), handed


# ---------------------------------------------------------------------------------------------- reading the emitted text
SPECIAL = {"pub type size_t = usize;", "pub type ssize_t = isize;", "pub type ptrdiff_t = isize;"}


def spell(t):
    """Text of a term, unknown identifiers spelled as the described program names them; None where it is not one text."""
    if t.k == "sym" and t.a[1] == "name":
        return t.a[0]
    if t.k == "fmt" and t.a[0] == "debug":
        t = next(iter(t.a[-1])) if isinstance(t.a[-1], frozenset) and len(t.a[-1]) == 1 else t.a[-1]
        return t.a[1] if isinstance(t, Term) and t.k == "adt" and not t.a[2] else None
    if t.k != "str":
        return None
    out = ""
    for p in t.a[0]:
        if not isinstance(p, str):
            if p[0] != "h":
                return None
            alts = {spell(x) for x in p[1]}
            if len(alts) > 1:       # what an identifier becomes when it is a keyword or one of the platform size types
                alts = {x for x in alts if x is None or x.strip() not in SPECIAL and not x.startswith("r#")}
            if len(alts) != 1 or None in alts:
                return None
            p = alts.pop()
        out += p
    return out


def texts(V):
    """Text of every alternative of a Result<String>; None where the value is not followed."""
    out = []
    for t in V:
        if t.k != "adt" or t.a[1] != "Ok":
            return None
        for s in t.a[2][0][1]:
            s = spell(s)
            if s is None:
                return None
            out.append(s)
    return out


def clean(s):
    s = re.sub(r"//[^\n]*", "", s)
    return re.sub(r"#\[[^\]]*\]", "", s)


def sq(s):
    """Text without insignificant blanks."""
    s = re.sub(r"\s+", " ", s).strip().rstrip(",").strip()
    return re.sub(r" ?([^\w\s]) ?", r"\1", s)


def close(s, i):
    """Index just behind the bracket group that opens at i."""
    d = 0
    q = None
    while i < len(s):
        ch = s[i]
        if q:
            if ch == "\\":
                i += 1
            elif ch == q:
                q = None
        elif ch == '"':
            q = ch
        elif ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError("unbalanced")


def split(s, sep=","):
    out, d, cur, q = [], 0, "", None
    for ch in s:
        if q:
            q = None if ch == q else q
        elif ch == '"':
            q = ch
        elif ch in "([{<":
            d += 1
        elif ch in ")]}" or ch == ">" and not cur.endswith("-"):
            d -= 1
        if ch == sep and d == 0 and q is None:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]


def params(s):
    out = []
    for p in split(s):
        if ":" in p and not p.lstrip("&").startswith("self"):
            n, t = p.split(":", 1)
            out.append((n.replace("mut ", "").strip(), sq(t)))
        else:
            out.append((sq(p), ""))
    return tuple(out)


def items(s):
    """Items of a Rust text, each as a tuple; raises ValueError where it is not a sequence of items."""
    s = clean(s)
    out = []
    i = 0
    while True:
        m = re.compile(r"\s*").match(s, i)
        i = m.end()
        if i >= len(s):
            return out
        m = re.compile(r"\x01#(\d+)\x02").match(s, i)
        if m:
            out.append(("fn", int(m.group(1))))
            i = m.end()
            continue
        m = re.compile(r"(?:pub(?:\([^)]*\))? )?(struct|type|const|static|mod|impl|fn|unsafe fn)\b\s*").match(s, i)
        if not m:
            raise ValueError("not an item: " + s[i:i + 60])
        kw = m.group(1)
        i = m.end()
        if kw == "struct":
            m = re.compile(r"(\w+)(<[^>]*>)?\s*").match(s, i)
            j = close(s, m.end())
            body = s[m.end() + 1:j - 1]
            out.append(("struct", m.group(1), tuple((f.split(":", 1)[0].replace("pub ", "").strip(), sq(f.split(":", 1)[1])) for f in split(body))))
            i = j
        elif kw in ("type", "const", "static"):
            j = i
            d = 0
            while s[j] != ";" or d:
                d += (s[j] in "([{") - (s[j] in ")]}")
                j += 1
            t = s[i:j]
            l, r = t.split("=", 1)
            l = re.sub(r"^mut ", "", l.strip())
            n, ty = (l.split(":", 1) + [""])[:2]
            out.append((kw, n.strip(), sq(ty), sq(r)))
            i = j + 1
        elif kw == "mod":
            m = re.compile(r"([\w#]+)\s*").match(s, i)
            j = close(s, m.end())
            out.append(("mod", m.group(1), tuple(items(s[m.end() + 1:j - 1]))))
            i = j
        elif kw == "impl":
            j = s.index("{", i)
            k = close(s, j)
            out.append(("impl", sq(s[i:j]), tuple(items(s[j + 1:k - 1]))))
            i = k
        else:
            m = re.compile(r"([\w#]+)\s*").match(s, i)
            j = close(s, m.end())
            k = s.index("{", j)
            r = s[j:k].strip()
            e = close(s, k)
            out.append(("method", m.group(1), params(s[m.end() + 1:j - 1]), sq(r[2:]) if r.startswith("->") else "", s[k + 1:e - 1].strip()))
            i = e
