"""Call-graph queries over the type-checked program."""
import collections
from .interp import key_of


def nodes(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            for k, v in x.items():
                if k != "crate" and isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def callees(db, b):
    """bodies a body may run: resolved local calls, closures and function values; an unresolved trait call runs every local implementation"""
    for n in nodes(b["body"]):
        k = n["k"]
        if k == "closure":
            c = db.by_h.get(n.get("h"))
            if c:
                yield c
        elif k in ("call", "zst"):
            c = db.by_h.get(n.get("rh"))
            if c:
                yield c
            elif n.get("trait"):
                for c in db.impls.get((n["trait"].split("::")[-1], n.get("name")), []):
                    yield c


def reach(db, roots):
    """{hash: (body, caller)} of everything reachable from the roots"""
    out = collections.OrderedDict()
    st = [(b, None) for b in roots]
    while st:
        b, fr = st.pop()
        if b["h"] in out:
            continue
        out[b["h"]] = (b, fr)
        for c in callees(db, b):
            st.append((c, b))
    return out


def path_to(r, b):
    p = []
    while b is not None:
        p.append(b["path"])
        b = r[b["h"]][1]
    return " <- ".join(p)


def external(db, b):
    """calls that leave the workspace: (node, callee path, model key)"""
    for n in nodes(b["body"]):
        if n["k"] in ("call", "zst") and n.get("fn") and n.get("rh") not in db.by_h:
            p = n.get("res") or n["fn"]
            yield n, p, key_of(p)
