"""Builders of abstract inputs: values of a given enum variant whose fields are named inputs."""
from absint import *


def inst(P, enum, var, pre="", **over):
    """Variant `var` of `enum`, every field an input symbol named pre+field, or the override."""
    a = P.adts[enum]
    for x in a["vars"]:
        if x["n"] == var:
            fs = []
            for n, ty in x["f"]:
                if n in over:
                    o = over[n]
                    fs.append((n, o if isinstance(o, frozenset) else v(o)))
                else:
                    fs.append((n, v(sym(pre + n, ty))))
            return T("adt", enum, var, tuple(fs))
    raise KeyError(f"{enum}::{var}")


def args_of(body, **over):
    out = []
    for i in range(body["args"]):
        nm = body["vars"].get(str(i + 1), f"a{i + 1}")
        ty = body["locals"][i + 1]
        if nm in over:
            o = over[nm]
            out.append(o if isinstance(o, frozenset) else v(o))
        else:
            out.append(v(sym(nm, ty)))
    return out
