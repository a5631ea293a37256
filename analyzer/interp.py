"""Abstract interpretation of the type-checked program (THIR) over the value-graph domain of terms.py.

Every function is analysed once per calling context, all paths at once (gated-SSA merge at joins, no path
enumeration); loops are summarised by solving the recurrences of the values they carry.
"""
import json
import os
import re
import sys
from collections import defaultdict

from . import terms as T
from .terms import (TRUE, FALSE, ZERO, ONE, UNIT, ERR, NONE, And, Or, Not, ite, raw, num, add, sub, mul, neg, inv, eq, ge, lt,
                    ge0, idx, length, seqlit, seqcat, seqset, seqslice, tab, contains, subst, lam, fresh, proj, adt,
                    isvariant, some, ok, uf, lift, is_num, known_nonneg)

UNROLL = 16
BOT = raw("bot")


class Undecided(Exception):
    pass


def constrain(t, c):
    """generalised cofactor of t under c"""
    if c is TRUE or c is FALSE or t.op != "ite":
        return t
    a = min((x.args[0] for x in (t, c) if x.op == "ite"), key=T.atom_order)
    c1, c0 = T.cof(c, a, 1), T.cof(c, a, 0)
    t1, t0 = T.cof(t, a, 1), T.cof(t, a, 0)
    if c1 is FALSE:
        return constrain(t0, c0)
    if c0 is FALSE:
        return constrain(t1, c1)
    return T._ite_atom(a, constrain(t1, c1), constrain(t0, c0))


# ------------------------------------------------------------------ program database
class Crate:
    def __init__(self, d):
        self.name = d["crate"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.bodies = d["bodies"]


class DB:
    def __init__(self, dirname):
        self.crates = {}
        self.by_h = {}
        self.by_path = {}
        self.by_short = defaultdict(list)
        self.impls = defaultdict(list)
        for c in ("kzg", "fri", "plonk", "nova"):
            f = os.path.join(dirname, c + ".json")
            with open(f) as fh:
                cr = Crate(json.load(fh))
            self.crates[c] = cr
            for a in cr.adts:
                T.ADTS[a["p"]] = a
            for b in cr.bodies:
                b["crate"] = cr
                self.by_h[b["h"]] = b
                self.by_path[b["path"]] = b
                if b["kind"] in ("Fn", "AssocFn"):
                    self.by_short[shortpath(b["path"])].append(b)
                    if b.get("impl_trait"):
                        self.impls[(b["impl_trait"].split("::")[-1], b["path"].split("::")[-1])].append(b)
        self.nfun = sum(1 for b in self.by_h.values() if b["kind"] in ("Fn", "AssocFn", "Closure"))

    def find(self, path):
        b = self.by_path.get(path)
        if b:
            return b
        k = shortpath(path)
        c = [x for x in self.by_short.get(k, [])]
        cr = [x for x in c if x["crate"].name == path.split("::")[0]]
        if len(cr) == 1:
            return cr[0]
        if len(c) == 1:
            return c[0]
        return None


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            d += 1
        elif ch == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return re.sub(r"::(::)+", "::", "".join(out)).strip(":")


def shortpath(p):
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", p)
    if m:
        return "<%s as %s>::%s" % (m.group(1).split("::")[-1].split("<")[0], m.group(2).split("::")[-1], m.group(3))
    q = strip_generics(p).split("::")
    if len(q) >= 2 and q[-2][:1].isupper():
        return "::".join(q[-2:])
    return q[-1]


IMPLRE = re.compile(r"<impl (.*?)>::")


def key_of(path):
    """model key of an external function"""
    m = re.match(r"^<(.*) as (.*)>::(\w+)$", path)
    if m:
        return strip_generics(m.group(2)).split("::")[-1] + "::" + m.group(3)
    m = re.search(r"::<impl (\[T\]|\[T; N\]|str|\w+)>::(\w+)$", path)
    if m:
        a = {"[T]": "slice", "[T; N]": "array"}.get(m.group(1), m.group(1))
        return a + "::" + m.group(2)
    q = strip_generics(path).split("::")
    return "::".join(q[-2:])


NAMES = {"std::option::Option": "Option", "core::option::Option": "Option", "std::result::Result": "Result",
         "core::result::Result": "Result", "std::ops::ControlFlow": "ControlFlow", "core::ops::ControlFlow": "ControlFlow"}


class Frame:
    _n = [0]

    def __init__(self, crate, tenv, body=None, parent=None):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.crate = crate
        self.tenv = tenv
        self.body = body
        self.parent = parent
        self.roots = {}
        self.exits = defaultdict(list)
        self.own = []
        self.name = body["path"] if body else "?"


def has_fold(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, T.Term):
            if isinstance(x, tuple):
                st.extend(x)
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in ("fold", "foldg", "opq"):
            return True
        st.extend(x.args)
    return False


class Interp:
    def __init__(self, db, models=None):
        self.db = db
        self.vars = {}
        self.alive = TRUE
        self.panics = []
        self.effects = []
        self.nroot = 0
        self.objs = {}  # closure / fn item objects
        self.rootty = {}
        self.depth = 0
        self.loopk = []
        self.entropy = 0
        self.prims = {}
        self.analysed = set()
        self.ncalls = 0
        self.nloops = 0
        self.unmodelled = defaultdict(int)
        self.cur_sp = ""
        self.stack = []
        self.tcache = {}
        self.track = {"explicit"}
        self.soft = {"oob"}
        self.untracked = []
        from . import models as M
        self.models = M.MODELS
        self.M = M

    # ---------------------------------------------------------------- types
    def ty(self, fr, i):
        """resolved type (type parameters substituted)"""
        key = (fr.crate.name, i, fr.id if fr.tenv else 0)
        r = self.tcache.get(key)
        if r is None:
            r = self.tcache[key] = self._ty(fr, i)
        return r

    def _ty(self, fr, i):
        t = fr.crate.types[i]
        k = t["k"]
        r = dict(t)
        if k == "param":
            x = fr.tenv.get(t["n"])
            if x is not None and not isinstance(x, T.Term):
                return x
        elif k == "adt":
            r["aa"] = [self.targ(fr, a) for a in t["a"]]
        elif k in ("ref", "slice"):
            r["tt"] = self.ty(fr, t["t"])
        elif k == "array":
            r["tt"] = self.ty(fr, t["t"])
            r["nv"] = self.constarg(fr, t["n"])
        elif k == "tuple":
            r["aa"] = [self.ty(fr, a) for a in t["a"]]
        elif k == "other":
            s = t["s"]
            # projections of known type parameters are kept symbolic
            for n, x in fr.tenv.items():
                if isinstance(x, dict) and ("<%s as" % n) in s:
                    r["s"] = s = s.replace("<%s as" % n, "<%s as" % x["s"])
        if k in ("adt", "ref", "slice", "array", "tuple") and fr.tenv:
            r["s"] = self.tname(r)
        return r

    def tname(self, r):
        k = r["k"]
        if k == "adt":
            a = [x for x in r["aa"] if x is not None]
            return r["p"] + ("<" + ",".join(x["s"] if isinstance(x, dict) else T.show(x) for x in a) + ">" if a else "")
        if k == "ref":
            return "&" + r["tt"]["s"]
        if k == "slice":
            return "[" + r["tt"]["s"] + "]"
        if k == "array":
            return "[" + r["tt"]["s"] + "; " + (T.show(r["nv"]) if r.get("nv") is not None else "?") + "]"
        if k == "tuple":
            return "(" + ",".join(x["s"] for x in r["aa"]) + ")"
        return r["s"]

    def targ(self, fr, a):
        if isinstance(a, int):
            return self.ty(fr, a)
        if isinstance(a, str) and a.startswith("const:"):
            return self.constarg(fr, a[6:])
        return None

    def constarg(self, fr, s):
        s = s.strip()
        m = re.match(r"^\{?(\d+)(_?usize|_?u\d+)?\}?$", s)
        if m:
            return num(int(m.group(1)))
        x = fr.tenv.get(s)
        if isinstance(x, T.Term):
            return x
        return raw("param", "const " + s)

    # ---------------------------------------------------------------- roots, places
    def newroot(self, val, fr=None, ty=None):
        self.nroot += 1
        r = self.nroot
        self.vars[r] = val
        if fr is not None:
            fr.own.append(r)
        if ty is not None:
            self.rootty[r] = ty
        return r

    def rootof(self, fr, v):
        f = fr
        while f is not None:
            r = f.roots.get(v)
            if r is not None:
                return r
            f = f.parent
        return None

    def bindvar(self, fr, v, val, ty=None):
        r = fr.roots.get(v)
        if r is None:
            r = self.newroot(val, fr, ty)
            fr.roots[v] = r
        else:
            self.vars[r] = val
        return r

    def mkref(self, root, path=()):
        return raw("ref", root, tuple(path))

    def temp(self, val, fr=None):
        return self.mkref(self.newroot(val, fr))

    def load1(self, r):
        root, path = r.args
        v = self.vars.get(root)
        if v is None:
            return raw("opq", "dangling")
        return self.rd(v, path)

    def rd(self, v, path):
        for n, s in enumerate(path):
            if v.op == "ite":
                return lift(lambda x: self.rd(x, path[n:]), v)
            if v.op == "ref":
                v = self.load(v)
                if v.op == "ite":
                    return lift(lambda x: self.rd(x, path[n:]), v)
            v = self.rd1(v, s)
        return v

    def rd1(self, v, s):
        k = s[0]
        if k == "f":
            return self.field(v, s[1] or None, s[2])
        if k == "i":
            return idx(v, s[1])
        if k == "coeffs":
            return T.coeffs(v)
        if k == "sl":
            return seqslice(v, s[1], s[2])
        if k == "k":
            return self.M.mget_val(v, s[1])
        raise Undecided("path " + str(s))

    def field(self, v, variant, name):
        if name == "coeffs" and T.polyish(v):
            return T.coeffs(v)
        return proj(v, None, variant, name)

    def wr(self, v, path, new):
        if not path:
            return new
        s, rest = path[0], path[1:]
        k = s[0]
        if v.op == "ite":
            return lift(lambda x: self.wr(x, path, new), v)
        if k == "f":
            old = self.field(v, s[1] or None, s[2])
            nv = self.wr(old, rest, new)
            return self.setfield(v, s[1] or None, s[2], nv)
        if k == "i":
            old = idx(v, s[1]) if rest else None
            nv = self.wr(old, rest, new) if rest else new
            return lift(lambda x: seqset(x, s[1], nv), v) if nv.op != "ite" else seqset(v, s[1], nv)
        if k == "coeffs":
            nv = self.wr(T.coeffs(v), rest, new)
            return T.fromcoeffs(nv)
        if k == "sl":
            nv = self.wr(seqslice(v, s[1], s[2]), rest, new)
            return seqcat(seqslice(v, ZERO, s[1]), nv, seqslice(v, s[2], length(v)))
        if k == "k":
            nv = self.wr(self.M.mget_val(v, s[1]), rest, new) if rest else new
            return self.M.mset(v, s[1], nv)
        raise Undecided("path " + str(s))

    def setfield(self, v, variant, name, nv):
        if v.op == "adt":
            return raw("adt", v.args[0], v.args[1], tuple((n, nv if n == name else x) for n, x in v.args[2]))
        if v.op == "tuple":
            a = list(v.args)
            a[int(name)] = nv
            return raw("tuple", *a)
        if v.op == "lit" and name.isdigit():
            a = list(v.args)
            a[int(name)] = nv
            return raw("lit", *a)
        x = self.expand(v, variant)
        if x is not None and x is not v:
            return self.setfield(x, variant, name, nv)
        return raw("setf", v, variant or "", name, nv)

    def expand(self, v, variant=None):
        """eta-expand an opaque struct value of known type"""
        t = v.ty
        if t and t.get("k") == "adt":
            a = T.ADTS.get(t["p"])
            if a and not a["enum"]:
                return adt(t["p"], None, [(f[0], proj(v, None, None, f[0])) for f in a["v"][0]["f"]])
        if t and t.get("k") == "tuple":
            return raw("tuple", *[proj(v, None, None, str(i)) for i in range(len(t["aa"]))])
        return None

    def load(self, r):
        if r.op == "ite":
            return lift(self.load, r)
        if r.op != "ref":
            return r
        v = self.load1(r)
        return v

    def val(self, v):
        """strip references completely"""
        n = 0
        while True:
            if v.op == "ref":
                v = self.load1(v)
            elif v.op == "ite" and any(x.op == "ref" for x in T.leaves(v)):
                v = lift(lambda x: self.load1(x) if x.op == "ref" else x, v)
            else:
                return v
            n += 1
            if n > 20:
                return v

    def store(self, r, new):
        if r.op == "ref":
            root, path = r.args
            cur = self.vars.get(root)
            if cur is None:
                return
            # a path that runs through an inner reference is redirected
            v = cur
            for n in range(len(path)):
                if v.op == "ref":
                    self.store(self.mkref(v.args[0], v.args[1] + path[n:]), new)
                    return
                if v.op == "ite" and any(x.op == "ref" for x in T.leaves(v)):
                    break
                v = self.rd1(v, path[n]) if n < len(path) - 1 else v
            self.vars[root] = self.wr(cur, path, new)
        elif r.op == "ite":
            for lf in self.refleaves(r):
                c = self.leafcond(r, lf)
                if lf.op == "ref":
                    self.store(lf, ite(c, new, self.load(lf)))
        else:
            # writing through an unknown pointer: no effect we can see
            self.effects.append((self.alive, "opaque-write", r, self.cur_sp))

    def refleaves(self, r):
        out = []
        for x in T.leaves(r):
            if x not in out:
                out.append(x)
        return out

    def leafcond(self, r, lf):
        if r.op != "ite":
            return TRUE if r is lf else FALSE
        a, h, l = r.args
        return ite(T.lit(a), self.leafcond(h, lf), self.leafcond(l, lf))

    def sub_ref(self, r, step):
        if r.op == "ite":
            return lift(lambda x: self.sub_ref(x, step), r)
        if r.op == "ref":
            return self.mkref(r.args[0], r.args[1] + (step,))
        return None

    # ---------------------------------------------------------------- panics, facts
    def panic(self, cond, kind, what, sp=None):
        c = And(self.alive, cond)
        if c is FALSE:
            return
        if kind not in self.track and c is not self.alive:
            self.untracked.append((kind, what, sp or self.cur_sp, self.stack[-1] if self.stack else ""))
            if kind in self.soft:
                self.panics.append([c, kind, what, sp or self.cur_sp, self.stack[-1] if self.stack else ""])
            self.learn(Not(cond))
            return
        self.panics.append([c, kind, what, sp or self.cur_sp, self.stack[-1] if self.stack else ""])
        self.alive = And(self.alive, Not(cond))
        if cond is not TRUE:
            self.learn(Not(cond))
            self.narrow(Not(cond))

    def narrow(self, c):
        """simplify gated variables under a condition that now holds"""
        if c.op != "ite":
            return
        lits = T.implied(c) if len(T.support(c)) <= 10 else []
        if not lits:
            return
        for r, v in self.vars.items():
            w = self.narrow_val(v, lits)
            if w is not v:
                self.vars[r] = w

    def narrow_val(self, v, lits):
        if v.op == "ite":
            for a, t in lits:
                v = T.assume(v, a, t)
            return v
        if v.op == "adt":
            fs = tuple((n, self.narrow_val(x, lits)) for n, x in v.args[2])
            if any(x is not y for (_, x), (_, y) in zip(fs, v.args[2])):
                return raw("adt", v.args[0], v.args[1], fs)
        if v.op == "tuple":
            fs = tuple(self.narrow_val(x, lits) for x in v.args)
            if any(x is not y for x, y in zip(fs, v.args)):
                return raw("tuple", *fs)
        return v

    def learn(self, c):
        if c.op != "ite":
            return
        s = T.support(c)
        if len(s) > 10:
            return
        for a, v in T.implied(c):
            if a.op == "ge0":
                d = a.args[0]
                T.FACTS.append(d if v else sub(neg(d), ONE))
            elif a.op == "eq0" and not v:
                d = a.args[0]
                if known_nonneg(d):
                    T.FACTS.append(sub(d, ONE))
                elif known_nonneg(neg(d)):
                    T.FACTS.append(sub(neg(d), ONE))
            elif a.op == "eq0" and v:
                d = a.args[0]
                T.FACTS.append(d)
                T.FACTS.append(neg(d))

    # ---------------------------------------------------------------- merging
    def mergevars(self, c, a, b):
        if a is b:
            return a
        out = dict(b)
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                out[k] = v
            elif w is not v:
                out[k] = ite(c, v, w)
        return out

    def merge(self, items):
        """items: (cond, val, vars) with exclusive conditions"""
        items = [i for i in items if i[0] is not FALSE]
        if not items:
            return FALSE, BOT, None
        cond, val, vs = items[-1]
        for c, v, w in reversed(items[:-1]):
            if v is BOT:
                pass
            val = ite(c, v, val) if val is not BOT else v
            vs = self.mergevars(c, w, vs)
            cond = Or(c, cond)
        return cond, val, vs

    def branch(self, c, f, g):
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        a0, v0 = self.alive, self.vars
        ac, an = And(a0, c), And(a0, Not(c))
        if ac is FALSE:
            return g()
        if an is FALSE:
            return f()
        nf = len(T.FACTS)
        self.alive, self.vars = ac, dict(v0)
        self.learn(c)
        self.narrow(c)
        x = f()
        va, aa = self.vars, self.alive
        del T.FACTS[nf:]
        self.alive, self.vars = an, dict(v0)
        self.learn(Not(c))
        self.narrow(Not(c))
        y = g()
        vb, ab = self.vars, self.alive
        del T.FACTS[nf:]
        if aa is FALSE and ab is FALSE:
            self.alive = FALSE
            return BOT
        if aa is FALSE:
            self.alive, self.vars = ab, vb
            self.learn(Not(c))
            return y
        if ab is FALSE:
            self.alive, self.vars = aa, va
            self.learn(c)
            return x
        self.alive = Or(aa, ab)
        self.vars = self.mergevars(c, va, vb)
        if x is BOT:
            return y
        if y is BOT:
            return x
        return ite(c, x, y)

    # ---------------------------------------------------------------- expressions
    def ev(self, e, fr):
        if self.alive is FALSE:
            return BOT
        if e is None:
            return UNIT
        r = getattr(self, "e_" + e["k"], self.e_unknown)(e, fr)
        if r is None:
            r = UNIT
        if r.ty is None and r.op in ("proj", "idx", "param", "uf", "rand", "ext", "opq", "fold") and "t" in e:
            r.ty = self.strip_ref(self.ty(fr, e["t"]))
        return r

    def strip_ref(self, t):
        while t and t.get("k") == "ref":
            t = t["tt"]
        while t and t.get("k") == "adt" and t["p"].split("::")[-1] in ("Arc", "Rc", "Box", "RefCell", "RefMut", "Ref") and t.get("aa"):
            t = t["aa"][0]
        return t

    def e_unknown(self, e, fr):
        self.unmodelled["expr:" + e["k"]] += 1
        return raw("opq", "expr", e["k"], e.get("sp", ""))

    def e_scope(self, e, fr):
        return self.ev_labelled(e["e"], fr, e["label"])

    def ev_labelled(self, e, fr, label):
        if e["k"] == "loop":
            return self.do_loop(e, fr, label)
        return self.ev(e, fr)

    def e_loop(self, e, fr):
        return self.do_loop(e, fr, None)

    def cond(self, e, fr):
        """boolean expression, binding let-patterns"""
        return self.tobool(self.ev(e, fr))

    def tobool(self, v):
        if v is BOT:
            return FALSE
        v = self.val(v)

        def f(x):
            if x is TRUE or x is FALSE:
                return x
            if x is BOT:
                return FALSE
            return T.lit(x)
        return lift(f, v)

    def e_if(self, e, fr):
        c = self.cond(e["c"], fr)
        if self.alive is FALSE:
            return BOT
        return self.branch(c, lambda: self.ev(e["a"], fr), lambda: self.ev(e["b"], fr) if e["b"] else UNIT)

    def e_logic(self, e, fr):
        a = self.cond(e["a"], fr)
        if e["op"] == "and":
            return self.branch(a, lambda: self.cond(e["b"], fr), lambda: FALSE)
        return self.branch(a, lambda: TRUE, lambda: self.cond(e["b"], fr))

    def e_let(self, e, fr):
        v, pl = self.scrut(e["e"], fr)
        b = []
        c = self.pat(e["pat"], v, pl, fr, b)
        for var, x, t in b:
            self.bindvar(fr, var, constrain(x, c), t)
        return c

    def scrut(self, e, fr):
        """value and place of a scrutinee"""
        pl = self.place(e, fr)
        if pl is not None:
            return self.load(pl), pl
        v = self.ev(e, fr)
        return v, None

    def e_match(self, e, fr):
        if e["src"] == "ForLoopDesugar":
            return self.do_for(e, fr)
        v, pl = self.scrut(e["e"], fr)
        if self.alive is FALSE:
            return BOT
        return self.arms(e["arms"], 0, v, pl, fr)

    def arms(self, arms, i, v, pl, fr):
        if i >= len(arms):
            self.alive = FALSE
            return BOT
        a = arms[i]
        b = []
        c = self.pat(a["pat"], v, pl, fr, b)
        last = i == len(arms) - 1
        if last and not a["g"]:
            c = TRUE

        def body():
            for var, x, t in b:
                self.bindvar(fr, var, constrain(x, c), t)
            if a["g"]:
                g = self.cond(a["g"], fr)
                return self.branch(g, lambda: self.ev(a["b"], fr), lambda: self.arms(arms, i + 1, v, pl, fr))
            return self.ev(a["b"], fr)
        return self.branch(c, body, lambda: self.arms(arms, i + 1, constrain(v, Not(c)) if c is not TRUE else v, pl, fr))

    # patterns -------------------------------------------------------
    def pat(self, p, v, pl, fr, binds):
        k = p["k"]
        if k == "wild":
            return TRUE
        if k == "bind":
            c = TRUE
            t = self.ty(fr, p["t"])
            x = v
            if p["ref"] == "mut":
                x = pl if pl is not None else self.temp(v)
            elif p["ref"] == "ref" and "RefCell" in t["s"] and pl is not None:
                x = pl
            if p["sub"]:
                c = self.pat(p["sub"], v, pl, fr, binds)
            binds.append((p["v"], x, t))
            return c
        if k == "deref":
            if v.op == "ref" or (v.op == "ite" and any(x.op == "ref" for x in T.leaves(v))):
                return self.pat(p["sub"], self.load(v), v, fr, binds)
            return self.pat(p["sub"], v, pl, fr, binds)
        if k == "variant":
            path = NAMES.get(p["p"], p["p"])
            v = self.val(v)
            c = isvariant(v, path, p["v"])
            for n, sp in p["f"]:
                x = constrain(proj(v, path, p["v"], n), c)
                self.settype(x, sp, fr)
                q = self.sub_ref(pl, ("f", p["v"], n)) if pl is not None else None
                c = And(c, self.pat(sp, x, q, fr, binds))
            return c
        if k == "leaf":
            c = TRUE
            if v.op == "ref":
                pl, v = v, self.load(v)
            for n, sp in p["f"]:
                x = self.field(v, None, n)
                self.settype(x, sp, fr)
                q = self.sub_ref(pl, ("f", "", n)) if pl is not None else None
                c = And(c, self.pat(sp, x, q, fr, binds))
            return c
        if k == "const":
            v = self.val(v)
            return self.M.veq(self, v, self.litval(p))
        if k == "or":
            cs = []
            bs = []
            for q in p["a"]:
                b = []
                cs.append(self.pat(q, v, pl, fr, b))
                bs.append(b)
            c = FALSE
            acc = {}
            for ci, b in reversed(list(zip(cs, bs))):
                for var, x, t in b:
                    acc[var] = (ite(ci, x, acc[var][0]) if var in acc else x, t)
                c = Or(ci, c)
            for var, (x, t) in acc.items():
                binds.append((var, x, t))
            return c
        if k == "slice":
            v = self.val(v)
            n = length(v)
            pre, mid, suf = p["pre"], p["mid"], p["suf"]
            m = num(len(pre) + len(suf))
            c = eq(n, m) if mid is None else ge(n, m)
            for i, sp in enumerate(pre):
                c = And(c, self.pat(sp, idx(v, num(i)), self.sub_ref(pl, ("i", num(i))) if pl is not None else None, fr, binds))
            for i, sp in enumerate(suf):
                j = sub(n, num(len(suf) - i))
                c = And(c, self.pat(sp, idx(v, j), self.sub_ref(pl, ("i", j)) if pl is not None else None, fr, binds))
            if mid is not None:
                lo, hi = num(len(pre)), sub(n, num(len(suf)))
                c = And(c, self.pat(mid, seqslice(v, lo, hi), self.sub_ref(pl, ("sl", lo, hi)) if pl is not None else None, fr, binds))
            return c
        if k == "range":
            m = re.findall(r"-?\d+", p["d"])
            return T.lit(uf("opq", "rangepat", v, p["d"])) if not is_num(v) else T.lit(raw("opq", "rangepat", v))
        self.unmodelled["pat:" + k] += 1
        return T.lit(raw("opq", "pat", k))

    def settype(self, x, sp, fr):
        if x.ty is None and x.op in ("proj", "idx", "param"):
            t = sp.get("t")
            if t is not None:
                x.ty = self.strip_ref(self.ty(fr, t))

    def litval(self, e):
        lk = e["lk"]
        if lk == "int":
            return num(int(e["v"]))
        if lk == "bool":
            return TRUE if e["v"] else FALSE
        if lk == "char":
            return num(ord(e["v"])) if len(e["v"]) == 1 else num(int(e["v"]))
        if lk == "str":
            return self.M.strlit(e["v"])
        if lk == "bytes":
            return seqlit([num(x) for x in e["v"]])
        return raw("opq", "lit", str(e["v"]))

    def e_lit(self, e, fr):
        return self.litval(e)

    def e_blk(self, e, fr):
        b = e["b"]
        for s in b["stmts"]:
            if self.alive is FALSE:
                return BOT
            if s["s"] == "expr":
                self.ev(s["e"], fr)
            else:
                self.do_let(s, fr)
        if self.alive is FALSE:
            return BOT
        v = self.ev(b["e"], fr) if b["e"] else UNIT
        if b["label"] and fr.exits.get(("brk", b["label"])):
            items = fr.exits.pop(("brk", b["label"]))
            c, v, vs = self.merge(items + [(self.alive, v, self.vars)])
            self.alive = c
            if vs is not None:
                self.vars = vs
        return v

    def do_let(self, s, fr):
        if s["init"] is None:
            b = []
            self.pat(s["pat"], BOT, None, fr, b)
            for var, x, t in b:
                self.bindvar(fr, var, BOT, t)
            return
        # `let x = place` copies; patterns with ref bindings need the place
        pl = None
        if has_ref_binding(s["pat"]):
            v, pl = self.scrut(s["init"], fr)
        else:
            v = self.ev(s["init"], fr)
        if self.alive is FALSE:
            return
        b = []
        c = self.pat(s["pat"], v, pl, fr, b)
        if s["else"]:
            def good():
                for var, x, t in b:
                    self.bindvar(fr, var, constrain(x, c), t)
                return UNIT
            self.branch(c, good, lambda: self.e_blk({"b": s["else"]}, fr))
        else:
            for var, x, t in b:
                self.bindvar(fr, var, x, t)

    def e_var(self, e, fr):
        r = self.rootof(fr, e["v"])
        if r is None:
            return raw("opq", "unbound", e["v"])
        return self.vars.get(r, BOT)

    # places ---------------------------------------------------------
    def place(self, e, fr):
        """reference term for a place expression, or None for a temporary"""
        k = e["k"]
        if k == "var":
            r = self.rootof(fr, e["v"])
            return self.mkref(r) if r is not None else None
        if k in ("field", "index"):
            b = self.place(e["e"] if k == "field" else e["a"], fr)
            if b is None:
                v = self.ev(e["e"] if k == "field" else e["a"], fr)
                if v.op == "ref" or (v.op == "ite" and T.leaves(v)[0].op == "ref"):
                    b = v
                else:
                    return None
            else:
                b = self.through(b)
            if k == "field":
                if e["n"] == "coeffs" and T.polyish(self.val(b)):
                    return self.sub_ref(b, ("coeffs",))
                return self.sub_ref(b, ("f", "", e["n"]))
            i = self.val(self.ev(e["b"], fr))
            self.bounds(self.val(b), i, e)
            return self.sub_ref(b, ("i", i))
        if k == "deref":
            v = self.ev(e["e"], fr)
            if v.op == "ref" or (v.op == "ite" and any(x.op == "ref" for x in T.leaves(v))):
                return v
            return self.place(e["e"], fr)
        if k in ("scope",):
            return self.place(e["e"], fr)
        return None

    def through(self, b):
        """follow references stored in the place b"""
        for _ in range(20):
            v = self.load(b)
            if v.op == "ref" or (v.op == "ite" and T.leaves(v)[0].op == "ref"):
                b = v
            else:
                return b
        return b

    def bounds(self, s, i, e):
        n = length(s)
        self.panic(Not(And(ge(i, ZERO), lt(i, n))) if not known_nonneg(i if i.op != "ite" else ZERO) else ge(i, n), "oob", "index", e.get("sp"))

    def e_field(self, e, fr):
        v = self.val(self.ev(e["e"], fr))
        r = self.field(v, None, e["n"])
        if r.ty is None:
            self.settype(r, e, fr)
        return r

    def e_index(self, e, fr):
        v = self.val(self.ev(e["a"], fr))
        i = self.val(self.ev(e["b"], fr))
        if self.alive is FALSE:
            return BOT
        self.bounds(v, i, e)
        return idx(v, i)

    def e_deref(self, e, fr):
        v = self.ev(e["e"], fr)
        return self.load(v) if v.op in ("ref", "ite") else v

    def e_borrow(self, e, fr):
        t = self.ty(fr, e["e"]["t"]) if "t" in e["e"] else {"s": ""}
        if e["m"] or "RefCell" in t["s"]:
            p = self.place(e["e"], fr)
            if p is not None:
                return p
            v = self.ev(e["e"], fr)
            if v is BOT:
                return v
            return self.temp(v, fr)
        return self.ev(e["e"], fr)

    def e_reborrow(self, e, fr):
        return self.ev(e["e"], fr)

    def e_rawborrow(self, e, fr):
        return self.e_borrow({"m": True, "e": e["e"]}, fr)

    def e_assign(self, e, fr):
        v = self.ev(e["b"], fr)
        p = self.place(e["a"], fr)
        if self.alive is FALSE:
            return BOT
        if p is not None:
            self.store(p, v)
        return UNIT

    def e_assignop(self, e, fr):
        b = self.val(self.ev(e["b"], fr))
        p = self.place(e["a"], fr)
        if self.alive is FALSE:
            return BOT
        if p is None:
            return UNIT
        a = self.val(p)
        op = e["op"].replace("Assign", "")
        self.store(p, self.binop(op, a, b, self.ty(fr, e["a"]["t"]), e))
        return UNIT

    def e_bin(self, e, fr):
        a = self.val(self.ev(e["a"], fr))
        b = self.val(self.ev(e["b"], fr))
        if self.alive is FALSE:
            return BOT
        return self.binop(e["op"], a, b, self.ty(fr, e["a"]["t"]), e)

    def binop(self, op, a, b, ty, e):
        k = ty.get("k")
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            if k == "uint":
                self.panic(lt(a, b), "arith", "subtract underflow", e.get("sp"))
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            self.panic(eq(b, ZERO), "arith", "divide by zero", e.get("sp"))
            return T.idiv(a, b)
        if op == "Rem":
            self.panic(eq(b, ZERO), "arith", "remainder by zero", e.get("sp"))
            return T.mod(a, b)
        if op == "Eq":
            return self.M.veq(self, a, b)
        if op == "Ne":
            return Not(self.M.veq(self, a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Ge":
            return ge(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return ge(b, a)
        if k == "bool":
            a, b = self.tobool(a), self.tobool(b)
            if op == "BitAnd":
                return And(a, b)
            if op == "BitOr":
                return Or(a, b)
            if op == "BitXor":
                return Not(T.Iff(a, b))
        if op == "Shl":
            return mul(a, T.power(num(2), b))
        if op == "Shr":
            return T.idiv(a, T.power(num(2), b))
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if is_num(y):
                    n = int(y.args[0])
                    if n >= 0 and (n & (n + 1)) == 0:
                        return T.mod(x, num(n + 1))
                z = add(y, ONE)
                if y.op == "ring" and z.op in ("pow", "npow2", "len"):
                    return T.mod(x, z) if z.op != "len" else uf("bitand", x, y)
            return uf("bitand", *sorted((a, b), key=lambda t: t.fp))
        if op == "BitXor":
            for x, y in ((a, b), (b, a)):
                if y is ONE:
                    return ite(eq(T.mod(x, num(2)), ZERO), add(x, ONE), sub(x, ONE))
            return uf("bitxor", *sorted((a, b), key=lambda t: t.fp))
        if op == "BitOr":
            return uf("bitor", *sorted((a, b), key=lambda t: t.fp))
        self.unmodelled["binop:" + op] += 1
        return raw("opq", "binop", op, a, b)

    def e_un(self, e, fr):
        v = self.val(self.ev(e["e"], fr))
        if self.alive is FALSE:
            return BOT
        if e["op"] == "Not":
            if self.ty(fr, e["t"]).get("k") == "bool":
                return Not(self.tobool(v))
            return uf("bitnot", v)
        return neg(v)

    def e_cast(self, e, fr):
        v = self.val(self.ev(e["e"], fr))
        if self.alive is FALSE:
            return BOT
        a, b = self.ty(fr, e["e"]["t"]), self.ty(fr, e["t"])
        w = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}
        if a.get("k") == "bool":
            return ite(self.tobool(v), ONE, ZERO)
        if b.get("n") in w and a.get("n") in w:
            if is_num(v) or w[b["n"]] >= w[a["n"]]:
                return v
            if v.op in ("ilog2",):
                return v
            return uf("trunc", v, b["n"])
        return v

    def e_nta(self, e, fr):
        self.ev(e["e"], fr)
        return BOT

    def e_coerce(self, e, fr):
        return self.ev(e["e"], fr)

    def e_break(self, e, fr):
        v = self.ev(e["e"], fr) if e["e"] else UNIT
        self.exit(fr, ("brk", e["label"]), v)
        return BOT

    def e_continue(self, e, fr):
        self.exit(fr, ("cont", e["label"]), UNIT)
        return BOT

    def e_return(self, e, fr):
        v = self.ev(e["e"], fr) if e["e"] else UNIT
        self.exit(fr, ("ret",), v)
        return BOT

    def exit(self, fr, key, v):
        if self.alive is not FALSE:
            fr.exits[key].append((self.alive, v, dict(self.vars)))
        self.alive = FALSE

    def e_constblock(self, e, fr):
        b = self.db.by_h.get(e["rh"])
        if b:
            f2 = Frame(fr.crate, fr.tenv, b, fr)
            return self.ev(b["body"], f2)
        return raw("opq", "constblock")

    def e_repeat(self, e, fr):
        v = self.ev(e["e"], fr)
        n = self.constarg(fr, e["n"])
        return tab(n, lambda i: v)

    def e_array(self, e, fr):
        return seqlit([self.ev(x, fr) for x in e["a"]])

    def e_tuple(self, e, fr):
        return raw("tuple", *[self.ev(x, fr) for x in e["a"]])

    def e_adt(self, e, fr):
        path = NAMES.get(e["p"], e["p"])
        variant = e["v"] if e["enum"] else None
        fs = {}
        for n, x in e["f"]:
            fs[n] = self.ev(x, fr)
        if e["base"]:
            b = self.val(self.ev(e["base"], fr))
            a = T.ADTS.get(path)
            if a:
                for f in a["v"][0]["f"]:
                    if f[0] not in fs:
                        fs[f[0]] = proj(b, path, None, f[0])
        return self.mkadt(path, variant, fs, fr, e)

    def mkadt(self, path, variant, fs, fr=None, e=None):
        if path == "Result" and variant == "Err":
            return ERR
        short = path.split("::")[-1]
        if short in ("Range", "RangeFrom", "RangeTo", "RangeInclusive", "RangeFull", "RangeToInclusive"):
            return adt("Range", None, [("k", raw("str", short))] + sorted(fs.items()))
        if short == "DensePolynomial" and "coeffs" in fs:
            return T.fromcoeffs(fs["coeffs"])
        if short == "Affine" or short == "Projective":
            return raw("opq", "rawpoint")
        a = T.ADTS.get(path)
        if a:
            v = a["v"][0] if variant is None else [x for x in a["v"] if x["n"] == variant][0]
            order = [f[0] for f in v["f"]]
            return adt(path, variant, [(n, fs[n]) for n in order if n in fs])
        return adt(path, variant, sorted(fs.items()))

    def e_closure(self, e, fr):
        b = self.db.by_h.get(e["h"])
        env = Frame(fr.crate, fr.tenv, fr.body, fr)
        env.id = fr.id
        # by-value captures are snapshots
        for u in e["up"]:
            if u["k"] in ("borrow", "reborrow"):
                continue
            x = u
            while x["k"] in ("deref", "field"):
                x = x["e"]
            if x["k"] == "var" and u is x:
                v = self.ev(u, fr)
                r = self.newroot(v, fr)
                env.roots[u["v"]] = r
        self.nroot += 1
        i = self.nroot
        t = raw("closure", i)
        self.objs[t.fp] = ("closure", b, env)
        return t

    def e_zst(self, e, fr):
        if e.get("fn") is None:
            return UNIT
        if e.get("ctor") and e["t"] is not None and fr.crate.types[e["t"]]["k"] != "fndef":
            return self.ctor(e, [], fr)
        self.nroot += 1
        t = raw("fnitem", e["fn"], self.nroot)
        self.objs[t.fp] = ("fn", e, fr)
        return t

    def e_const(self, e, fr):
        b = self.db.by_h.get(e.get("rh"))
        if b:
            f2 = Frame(b["crate"], fr.tenv, b)
            return self.ev(b["body"], f2)
        name = e["name"]
        t = self.ty(fr, e["t"])
        if name == "ZERO":
            return ZERO
        if name == "ONE":
            return ONE
        if name == "GENERATOR":
            return raw("generator", self.M.fieldkey(t))
        if name in ("MAX", "MIN", "BITS") and t.get("k") == "uint":
            w = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}.get(t["n"], 64)
            return {"MAX": num(2 ** w - 1), "MIN": ZERO, "BITS": num(w)}[name]
        r = raw("extconst", strip_generics(e["p"]), t["s"])
        r.ty = t
        return r

    def e_constparam(self, e, fr):
        x = fr.tenv.get(e["n"])
        return x if isinstance(x, T.Term) else raw("param", "const " + e["n"])

    def e_static(self, e, fr):
        return raw("extconst", e["p"])

    # ---------------------------------------------------------------- calls
    def ctor(self, e, args, fr):
        """tuple-struct / variant constructor used as a function"""
        p = e["fn"]
        q = strip_generics(p).split("::")
        t = self.ty(fr, e["t"]) if e.get("t") is not None else None
        name = q[-1]
        if name in ("Some", "None", "Ok", "Err", "Continue", "Break"):
            path = {"Some": "Option", "None": "Option", "Ok": "Result", "Err": "Result"}.get(name, "ControlFlow")
            if name == "Err":
                return ERR
            return adt(path, name, [(str(i), a) for i, a in enumerate(args)])
        # struct or enum?
        full = "::".join(q)
        if full in T.ADTS:
            return self.mkadt(full, None, {str(i): a for i, a in enumerate(args)})
        par = "::".join(q[:-1])
        if par in T.ADTS:
            a = T.ADTS[par]
            return self.mkadt(par, name if a["enum"] else None, {str(i): x for i, x in enumerate(args)})
        return adt(full, None, [(str(i), a) for i, a in enumerate(args)])

    def e_call(self, e, fr):
        self.cur_sp = e.get("sp", self.cur_sp)
        if e.get("fn") is None:
            f = self.ev(e["fe"], fr) if e["fe"] else None
            args = [self.ev(a, fr) for a in e["args"]]
            if self.alive is FALSE:
                return BOT
            return self.apply(f, args)
        if e.get("mac") and self.M.is_print(e["fn"]):
            pass
        args = [self.ev(a, fr) for a in e["args"]]
        if self.alive is FALSE:
            return BOT
        self.cur_sp = e.get("sp", self.cur_sp)
        return self.invoke(e, args, fr)

    def invoke(self, e, args, fr):
        if e.get("ctor"):
            return self.ctor(e, args, fr)
        b, tenv = self.resolve(e, fr, args)
        key = key_of(e["fn"])
        if b is not None and not self.is_trivial_derive(b, key):
            p = self.prims.get(shortpath(b["path"]))
            if p is not None:
                r = p(self, args, tenv)
                if r is not NotImplemented:
                    return r
            return self.call(b, args, tenv)
        return self.external(e, key, args, fr)

    def is_trivial_derive(self, b, key):
        return b["derived"] and key.split("::")[-1] in ("clone", "eq", "ne", "fmt", "hash", "assert_receiver_is_total_eq", "cmp", "partial_cmp")

    def resolve(self, e, fr, args):
        b = self.db.by_h.get(e.get("rh")) if e.get("rh") else None
        if b is not None and b["kind"] in ("Fn", "AssocFn"):
            if b.get("in_trait") and e.get("trait"):
                # default method: prefer an overriding local impl for the concrete Self
                o = self.impl_for(e, fr)
                if o:
                    return o
            ga = e.get("rga") or []
            tenv = {}
            for n, a in zip(b["generics"], ga):
                x = self.targ(fr, a)
                if x is not None:
                    tenv[n] = x
            return b, tenv
        if e.get("trait") and not e.get("rh"):
            o = self.impl_for(e, fr)
            if o:
                return o
        return None, None

    def impl_for(self, e, fr):
        tr = e["trait"].split("::")[-1]
        name = e["name"]
        ga = [self.targ(fr, a) for a in e["ga"]]
        st = ga[0] if ga else None
        if st is None or not isinstance(st, dict) or st.get("k") != "adt":
            return None
        for b in self.db.impls.get((tr, name), []):
            it = b["crate"].types[b["impl_self"]]
            if it["k"] == "adt" and it["p"] == st["p"]:
                tenv = {}
                for a, x in zip(it["a"], st.get("aa", [])):
                    if isinstance(a, int) and b["crate"].types[a]["k"] == "param":
                        tenv[b["crate"].types[a]["n"]] = x
                # method-level generics
                return b, tenv
        return None

    def method_on(self, tname, trait, name):
        for b in self.db.impls.get((trait, name), []):
            it = b["crate"].types[b["impl_self"]]
            if it["k"] == "adt" and it["p"] == tname:
                return b
        return None

    def call(self, b, args, tenv, parent=None):
        self.depth += 1
        if self.depth > 80 or self.stack.count(b["path"]) > 3:
            self.depth -= 1
            self.unmodelled["recursion:" + b["path"]] += 1
            for a in args:
                if a.op == "ref":
                    self.store(a, raw("opq", "rec", b["path"]))
            return raw("opq", "rec", b["path"], *args)
        self.ncalls += 1
        self.analysed.add(b["path"])
        fr = Frame(b["crate"], tenv, b, parent)
        a0, p0, e0 = self.alive, len(self.panics), len(self.effects)
        nf = len(T.FACTS)
        self.alive = TRUE
        self.stack.append(b["path"])
        ps = b["params"]
        if b["kind"] == "Closure":
            ps = ps[1:] if ps and ps[0]["pat"] is None else ps
        for p, a in zip(ps, args):
            if p["pat"] is None:
                continue
            bl = []
            pl = a if a.op == "ref" else None
            self.pat(p["pat"], a, None, fr, bl)
            for var, x, t in bl:
                self.bindvar(fr, var, x, t)
        v = self.ev(b["body"], fr)
        items = fr.exits.pop(("ret",), [])
        if self.alive is not FALSE:
            items = items + [(self.alive, v, self.vars)]
        c, v, vs = self.merge(items)
        if vs is not None:
            self.vars = vs
        for r in fr.own:
            if r in self.vars and not self.escapes(v, r):
                self.vars.pop(r, None)
        for p in self.panics[p0:]:
            p[0] = And(a0, p[0])
        for i in range(e0, len(self.effects)):
            x = self.effects[i]
            self.effects[i] = (And(a0, x[0]),) + x[1:]
        self.alive = And(a0, c)
        del T.FACTS[nf:]
        if c is not TRUE and c is not FALSE:
            self.learn(c)
        self.stack.pop()
        self.depth -= 1
        return v if c is not FALSE else BOT

    def escapes(self, v, r):
        # temporaries referenced by a returned iterator/closure/reference stay alive
        return self.has_refs(v)

    def has_refs(self, v, seen=None):
        if v.op in ("ref", "closure", "fnitem", "iter"):
            return True
        if v.op in ("num", "ring", "lam", "tab"):
            return False
        if seen is None:
            seen = set()
        if v.fp in seen:
            return False
        seen.add(v.fp)
        return any(self.has_refs(c, seen) for c in T._children(v.args))

    def apply(self, f, args):
        """call a closure / function value"""
        f = self.val(f)
        if f.op == "ite":
            a, h, l = f.args
            return self.branch(T.lit(a), lambda: self.apply(h, args), lambda: self.apply(l, args))
        o = self.objs.get(f.fp)
        if o is None:
            return self.opaque("apply", [f] + args)
        if o[0] == "closure":
            _, b, env = o
            if b is None:
                return self.opaque("closure", args)
            return self.call(b, args, env.tenv, env)
        _, e, fr = o
        return self.invoke(e, args, fr)

    def opaque(self, what, args):
        """unknown function: result unknown, everything reachable through &mut arguments unknown"""
        self.unmodelled[what] += 1
        av = [self.val(a) if self.has_refs(a) else a for a in args]
        for i, a in enumerate(args):
            if a.op == "ref":
                self.store(a, raw("opq", what, i, *av))
            o = self.objs.get(a.fp)
            if o and o[0] == "closure":
                self.effects.append((self.alive, "opaque-closure", a, self.cur_sp))
                raise Undecided("closure passed to unmodelled " + what)
        return raw("opq", what, *av)

    def external(self, e, key, args, fr):
        m = self.models.get(key)
        if m is None:
            m = self.models.get("*::" + key.split("::")[-1]) if e.get("trait") else None
        if m is not None:
            r = m(Call(self, e, key, args, fr))
            if r is not NotImplemented:
                return r if r is not None else UNIT
        # an item of a workspace trait called on an abstract type: an unknown but fixed function
        t = e.get("trait")
        if t and t.split("::")[0] in self.db.crates:
            av = [self.val(a) for a in args]
            r = uf("ext", key, *av)
            r.ty = self.strip_ref(self.ty(fr, e["t"]))
            return self.expand(r) or r
        return self.opaque("ext:" + key, args)

    # ---------------------------------------------------------------- loops
    def do_for(self, e, fr):
        """for pat in it { body }"""
        it = self.ev(e["e"], fr)  # into_iter(...)
        if self.alive is FALSE:
            return BOT
        arm = e["arms"][0]
        # locate: scope(label) loop { match next(&mut iter) { None => break, Some(pat) => body } }
        sc = arm["b"]
        label = None
        while sc["k"] in ("scope", "blk", "loop"):
            if sc["k"] == "scope":
                label = sc["label"]
                sc = sc["e"]
            elif sc["k"] == "loop":
                sc = sc["e"]
            else:
                b = sc["b"]
                if b["stmts"] and not b["e"]:
                    sc = b["stmts"][0]["e"]
                else:
                    sc = b["e"] if b["e"] else b["stmts"][0]["e"]
        inner = sc
        some_arm = [a for a in inner["arms"] if a["pat"].get("v") == "Some"][0]
        pat = some_arm["pat"]["f"][0][1]
        it = self.M.to_iter(self, it)
        if it.op != "iter":
            raise Undecided("for over non-iterator " + T.show(it)[:80])

        def body(item):
            pl = item if item.op == "ref" else None
            bl = []
            self.pat(pat, item, pl, fr, bl)
            for var, x, t in bl:
                if x.ty is None and x.op in ("idx", "proj"):
                    x.ty = self.strip_ref(t)
                self.bindvar(fr, var, x, t)
            self.ev(some_arm["b"], fr)
        self.M.drive(self, it, body, fr, label)
        return UNIT

    def do_loop(self, e, fr, label):
        v = self.loop(None, lambda k: self.ev(e["e"], fr), fr, label)
        return v

    def snapshot(self):
        return (self.vars, self.alive, len(self.panics), len(self.effects), self.entropy)

    def restore(self, s):
        self.vars, self.alive = dict(s[0]), s[1]
        del self.panics[s[2]:]
        del self.effects[s[3]:]
        self.entropy = s[4]

    def loop(self, n, body, fr, label):
        """n: trip count term (None: only left by break).  body(k) runs one iteration."""
        self.nloops += 1
        if n is not None and n.op == "ite":
            a, h, l = n.args
            # a guarded trip count: summarise each alternative
            if len(T.leaves(n)) <= 6:
                return self.branch(T.lit(a), lambda: self.loop(h, body, fr, label), lambda: self.loop(l, body, fr, label))
        if n is not None and is_num(n) and n.args[0] <= UNROLL:
            return self.unroll(int(n.args[0]), body, fr, label)
        if n is None and fr is not None:
            m = self.rounds(body, fr, label)
            if m is not None:
                return self.unroll(m, body, fr, label, True)
        return self.summarise(n, body, fr, label)

    def rounds(self, body, fr, label, most=64):
        """the number of rounds of a loop whose every exit is decided by known values; None otherwise"""
        v0, a0, ent0, ex0 = self.vars, self.alive, self.entropy, fr.exits
        p0, e0, nf = len(self.panics), len(self.effects), len(T.FACTS)
        if a0 is FALSE:
            return None
        self.vars = dict(v0)
        fr.exits = defaultdict(list)
        out = None
        try:
            for i in range(most):
                body(num(i))
                conts = fr.exits.pop(("cont", label), [])
                if conts:
                    if len(conts) != 1 or self.alive is not FALSE or conts[0][0] is not a0:
                        break
                    self.alive = a0
                    if conts[0][2] is not None:
                        self.vars = dict(conts[0][2])
                left = [x for xs in fr.exits.values() for x in xs]
                if len(self.panics) > p0 and any(x is not FALSE for x in [self.alive]) and self.alive is not a0:
                    break
                if self.alive is FALSE:
                    if len(left) == 1 and left[0][0] is a0 and fr.exits.get(("brk", label)):
                        out = i + 1
                    break
                if left or self.alive is not a0:
                    break
        except (Undecided, RecursionError):
            out = None
        finally:
            self.vars, self.alive, self.entropy, fr.exits = v0, a0, ent0, ex0
            del self.panics[p0:]
            del self.effects[e0:]
            del T.FACTS[nf:]
        return out

    def unroll(self, n, body, fr, label, forever=False):
        brks = []
        for i in range(max(n, 0)):
            if self.alive is FALSE:
                break
            saved = None
            if fr is not None:
                saved = {k: fr.exits.pop(k, []) for k in (("brk", label), ("cont", label))}
            body(num(i))
            if fr is not None:
                conts = fr.exits.pop(("cont", label), [])
                brks += fr.exits.pop(("brk", label), [])
                for k, x in saved.items():
                    if x:
                        fr.exits[k] = x
                if conts:
                    c, v, vs = self.merge(conts + [(self.alive, UNIT, self.vars)])
                    self.alive = c
                    if vs is not None:
                        self.vars = vs
        v = UNIT
        if brks:
            if forever:
                c, v, vs = self.merge(brks)
            else:
                c, v, vs = self.merge(brks + [(self.alive, UNIT, self.vars)])
            self.alive = c
            if vs is not None:
                self.vars = vs
        return v

    def run_iter(self, body, k, fr, label, n):
        """one abstract iteration in the current vars; returns (end_alive, end_vars, exits, panics, effects)"""
        a0 = self.alive
        p0, e0 = len(self.panics), len(self.effects)
        nf = len(T.FACTS)
        self.alive = TRUE
        if n is not None:
            T.FACTS.append(sub(sub(n, k), ONE))
        saved = None
        if fr is not None:
            saved = fr.exits
            fr.exits = defaultdict(list)
        self.loopk.append(k)
        body(k)
        self.loopk.pop()
        exits = []
        if fr is not None:
            ex = fr.exits
            fr.exits = saved
            conts = ex.pop(("cont", label), [])
            if conts:
                c, v, vs = self.merge(conts + [(self.alive, UNIT, self.vars)])
                self.alive = c
                if vs is not None:
                    self.vars = vs
            for key, items in ex.items():
                for it in items:
                    exits.append((key,) + it)
        del T.FACTS[nf:]
        end = (self.alive, self.vars, exits, [list(x) for x in self.panics[p0:]], self.effects[e0:])
        del self.panics[p0:]
        del self.effects[e0:]
        self.alive = a0
        return end

    def summarise(self, n, body, fr, label):
        k = fresh("bv", {"k": "uint"})
        v0, a0 = self.vars, self.alive
        ent0 = self.entropy
        start = dict(v0)
        phis = {}  # phi term -> (root, init)
        phikey = {}
        for rnd in range(12):
            self.entropy = ent0
            self.vars = dict(start)
            ea, ev_, exits, pans, effs = self.run_iter(body, k, fr, label, n)
            new = False
            if ea is not FALSE:
                for r in list(v0):
                    s, t = start[r], ev_.get(r)
                    if t is None or t is s:
                        continue
                    t = constrain(t, ea)
                    if t is s:
                        continue
                    s2 = self.phi_of(v0[r], s, t, r, (), phis, phikey)
                    if s2 is not s:
                        start[r] = s2
                        new = True
            if not new:
                break
        else:
            raise Undecided("loop state does not stabilise")
        self.vars = dict(v0)
        # end values of the phi leaves
        fmap = {}
        if ea is not FALSE:
            for r in v0:
                s, t = start[r], ev_.get(r)
                if t is None or s is v0[r] and t is s:
                    continue
                self.pair(s, constrain(t, ea), phis, fmap)
        steps = {p: fmap.get(p, p) for p in phis}
        peeled = None
        if n is not None:
            nf = len(T.FACTS)
            T.FACTS.append(sub(sub(n, k), num(2)))
            inner = {p: refact(f) for p, f in steps.items()}
            del T.FACTS[nf:]
            if any(inner[p] is not steps[p] for p in steps):
                peeled, steps = steps, inner
        sols = None
        if peeled is not None:
            # peeling the last round is only worth it when the loop has no closed form otherwise
            try:
                sols = self.solve({p: (phis[p][1], peeled[p]) for p in phis}, k, n)
            except Undecided:
                sols = None
            if sols is not None:
                if any(has_fold(sols[p]) for p in phis):
                    sols = None
                else:
                    steps, peeled = peeled, None
        if sols is None:
            sols = self.solve({p: (phis[p][1], steps[p]) for p in phis}, k, n)
        sb = lambda x: subst(x, sols) if x is not None else None
        kill = lambda x, at: subst(x, {k: at})
        if peeled is not None:
            last = sub(n, ONE)
            some_ = ge(n, ONE)
            fin = {}
            for p in phis:
                init = phis[p][1]
                fin[p] = ite(some_, kill(sb(peeled[p]), last), init)
            sbn = lambda x: subst(x, fin)
        else:
            sbn = sb
        # exits
        exs = []
        for key, c, val, vs in exits:
            exs.append([key, sb(c), val, vs])
        brks = [x for x in exs if x[0] == ("brk", label)]
        normal_val = UNIT
        normal_vars = None
        if n is None:
            n, rest = self.trip_count(exs, label, k)
            if n is None:
                allc = Or(*[x[1] for x in exs])
                n = raw("first", lam(k, allc)) if allc is not FALSE else raw("opq", "diverges")
                lead = None
                early = []
                if len(exs) == 1 and exs[0][0] == ("brk", label):
                    lead = exs[0]
                else:
                    early = exs
                    lead = None
            else:
                lead, early = rest
            if is_num(n) and n.args[0] < UNROLL:
                # statically known number of iterations
                self.vars, self.alive, self.entropy = dict(v0), a0, ent0
                return self.unroll(int(n.args[0]) + 1, body, fr, label, True)
            if lead is not None:
                normal_val = kill(sb(self.safe(lead[2])), n)
                normal_vars = {r: kill(sb(x), n) for r, x in lead[3].items() if r in v0 and x is not v0[r]}
                unbounded = False
            else:
                unbounded = True
        else:
            early = exs
            unbounded = False
            normal_vars = {r: kill(sbn(start[r]), n) for r in v0 if start[r] is not v0[r]}
        self.loopinfo = (n, k)
        # early exits
        has = FALSE
        if early:
            E = Or(*[x[1] for x in early])
            if unbounded:
                kx = n
                has = TRUE
            else:
                has = self.mkexists(n, k, E)
                kx = raw("firstx", n, lam(k, E))
        # panics
        for p in pans:
            c = sb(p[0])
            if early and not unbounded:
                m = fresh("bv", {"k": "uint"})
                c2 = And(c, Not(self.mkexists(k, m, subst(Or(*[x[1] for x in early]), {k: m}))))
                c2 = self.mkexists(n, k, c2)
            else:
                c2 = self.mkexists(n if not unbounded else add(n, ONE), k, c)
            c2 = And(a0, c2)
            if c2 is not FALSE:
                self.panics.append([c2] + p[1:])
                if p[1] in self.track:
                    a0 = And(a0, Not(c2))
        for x in effs:
            self.effects.append((a0, x[1], sb(x[2]), x[3]))
        out = []
        if early:
            rem = And(a0, has)
            for j, (key, c, val, vs) in enumerate(early):
                cj = rem if j == len(early) - 1 else And(rem, kill(c, kx))
                if cj is FALSE:
                    continue
                rem = And(rem, Not(cj)) if j != len(early) - 1 else FALSE
                nv = dict(v0)
                for r, x in vs.items():
                    if r in v0 and x is not v0[r]:
                        nv[r] = kill(sb(x), kx)
                out.append((key, cj, kill(sb(self.safe(val)), kx), nv))
        self.vars = dict(v0)
        if normal_vars:
            self.vars.update(normal_vars)
        self.alive = And(a0, Not(has)) if not unbounded else FALSE
        own = [(c, v, vs) for key, c, v, vs in out if key == ("brk", label)]
        for key, c, v, vs in out:
            if key != ("brk", label):
                fr.exits[key].append((c, v, vs))
        if own:
            c, v, vs = self.merge(own + [(self.alive, normal_val, self.vars)])
            self.alive = c
            if vs is not None:
                self.vars = vs
            normal_val = v
        return normal_val

    def safe(self, v):
        return self.val(v) if v.op == "ref" else v

    def mkexists(self, n, k, c):
        if c is FALSE:
            return FALSE
        nf = len(T.FACTS)
        T.FACTS.append(sub(sub(n, k), ONE))
        try:
            return lift(lambda m: T.mkexists(m, k, c), n)
        finally:
            del T.FACTS[nf:]

    def trip_count(self, exs, label, k):
        """find a break whose condition is a threshold in k"""
        for i, x in enumerate(exs):
            if x[0] != ("brk", label):
                continue
            c = x[1]
            cands = []
            if c.op == "ite":
                for a, v in T.implied(c):
                    cands.append((a, v))
            for a, v in cands:
                N = self.threshold(a, v, k)
                if N is None:
                    continue
                l = T.lit(a) if v else Not(T.lit(a))
                if c is l:
                    return N, (x, [y for j, y in enumerate(exs) if j != i])
        return None, None

    def threshold(self, a, v, k):
        """smallest k where literal holds, if it is monotone in k"""
        if a.op == "ge0":
            d = a.args[0] if v else sub(neg(a.args[0]), ONE)
            # d >= 0 holds from some k on: d = c*k + e, c > 0
            r = T.R(d)
            ck = r.get(((k, 1),))
            if ck is None or ck <= 0:
                return None
            e = T.from_R({m: c for m, c in r.items() if m != ((k, 1),)})
            if contains(e, k):
                return None
            if ck == 1:
                return T.max0(neg(e))
            return T.max0(T.idiv(add(neg(e), num(ck - 1)), num(ck)))
        if a.op == "eq0" and v:
            r = T.R(a.args[0])
            ck = r.get(((k, 1),))
            if ck is None or abs(ck) != 1:
                return None
            e = T.from_R({m: -c / ck for m, c in r.items() if m != ((k, 1),)})
            if contains(e, k):
                return None
            return e
        return None

    # phi construction -------------------------------------------------
    SHAPE = {"adt", "tuple", "lit", "map", "rng", "iter", "hasher"}

    def same_shape(self, a, b):
        if a.op != b.op or a.op not in self.SHAPE:
            return False
        if a.op == "adt":
            return a.args[:2] == b.args[:2] and [n for n, _ in a.args[2]] == [n for n, _ in b.args[2]]
        if a.op in ("tuple", "lit"):
            return len(a.args) == len(b.args)
        if a.op == "map":
            return [x for x, _ in a.args[0]] == [x for x, _ in b.args[0]]
        return a.args[0] is b.args[0] or a.args[0] == b.args[0]

    def comps(self, a):
        if a.op == "adt":
            return [(n, x) for n, x in a.args[2]]
        if a.op in ("tuple", "lit"):
            return list(enumerate(a.args))
        if a.op == "map":
            return [(x.fp, y) for x, y in a.args[0]]
        return [(1, a.args[1])]

    def withcomps(self, a, cs):
        if a.op == "adt":
            return raw("adt", a.args[0], a.args[1], tuple((n, c) for (n, _), c in zip(a.args[2], cs)))
        if a.op in ("tuple", "lit"):
            return raw(a.op, *cs)
        if a.op == "map":
            return raw("map", tuple((x, c) for (x, _), c in zip(a.args[0], cs)))
        return raw(a.op, a.args[0], cs[0])

    def phi_of(self, init, s, t, root, path, phis, phikey):
        """new start value: phi leaves where the iteration changes the value"""
        if t is s:
            return s
        if self.same_shape(init, t) and self.same_shape(init, s):
            cs = []
            for (n, a), (_, b), (_, c) in zip(self.comps(init), self.comps(s), self.comps(t)):
                cs.append(self.phi_of(a, b, c, root, path + (n,), phis, phikey))
            if all(x is y for x, (_, y) in zip(cs, self.comps(s))):
                return s
            return self.withcomps(s, cs)
        key = (root, path)
        if key in phikey:
            return phikey[key]
        p = fresh("phi")
        leaf = init
        while leaf.op == "ite":
            leaf = leaf.args[1]
        if T.is_boolish(init):
            p = T.lit(p)
            atom = p.args[0]
        else:
            atom = p
            if T.is_seq(leaf):
                et = None
                if leaf.ty:
                    p.ty = leaf.ty
                if p.ty is None:
                    p.ty = {"k": "slice", "tt": None, "s": "seq"}
            elif T.is_poly(init) or T.is_poly(t):
                p.ty = {"k": "adt", "p": "ark_poly::univariate::DensePolynomial", "s": "poly", "aa": []}
            else:
                rt = self.rootty.get(root) if not path else None
                p.ty = self.strip_ref(rt) if rt and rt.get("k") != "ref" else None
                if leaf.ty is not None and p.ty is None:
                    p.ty = leaf.ty
                if p.ty is None and self.intish(leaf) and self.intish_end(t):
                    p.ty = {"k": "uint", "s": "int"}
        phis[atom] = (root, init)
        phikey[key] = p
        # sub-paths discovered earlier are subsumed
        return p

    def intish(self, t):
        return is_num(t) and t.args[0] >= 0 and False

    def intish_end(self, t):
        return True

    def pair(self, s, t, phis, fmap):
        """map each phi leaf of the start value to its end-of-iteration value"""
        a = s.args[0] if (s.op == "ite" and s.args[1] is TRUE and s.args[2] is FALSE) else s
        if a in phis:
            fmap[a] = t
            return
        if s is t:
            return
        if self.same_shape(s, t):
            for (_, x), (_, y) in zip(self.comps(s), self.comps(t)):
                self.pair(x, y, phis, fmap)

    # recurrence solving -------------------------------------------------
    def solve(self, eqs, k, n):
        """eqs: phi -> (init, next).  returns phi -> closed form in k"""
        phis = list(eqs)
        # lengths of sequences are recurrences of their own
        lens = {}
        for p in phis:
            init, f = eqs[p]
            if p.ty is not None and T.is_seq_ty(p.ty) or p.op == "phi" and T.is_seq(p):
                lp = raw("len", p)
                d = lift(lambda x: sub(length(x), lp), f)
                if not any(contains(d, q) for q in phis) and not contains(d, k):
                    lens[lp] = add(length(init), mul(d, k))
        if lens:
            eqs = {p: (i, subst(f, lens)) for p, (i, f) in eqs.items()}
        deps = {p: [q for q in phis if contains(eqs[p][1], q)] for p in phis}
        sols = {}
        for scc in tarjan(phis, deps):
            cur = {p: (eqs[p][0], subst(eqs[p][1], sols)) for p in scc}
            if len(scc) == 1:
                p = scc[0]
                init, f = cur[p]
                sols[p] = self.solve1(p, init, f, k, n)
            else:
                sols.update(self.fold_group(scc, cur, k))
        for lp, x in lens.items():
            sols[lp] = x
        return sols

    def at(self, t, k, m):
        return subst(t, {k: m})

    def msum(self, n, k, b):
        m = fresh("bv", {"k": "uint"})
        nf = len(T.FACTS)
        T.FACTS.append(sub(sub(n, m), ONE))
        try:
            return lift(lambda x: T.mksum(x, m, self.at(b, k, m)), n)
        finally:
            del T.FACTS[nf:]

    def mtab(self, n, k, b):
        m = fresh("bv", {"k": "uint"})
        nf = len(T.FACTS)
        T.FACTS.append(sub(sub(n, m), ONE))
        try:
            bb = self.at(b, k, m)
            return lift(lambda x: T.mktab(x, m, bb), n)
        finally:
            del T.FACTS[nf:]

    def solve1(self, p, init, f, k, n):
        boolean = T.is_boolish(init)
        if f is p or (boolean and f is T.lit(p)):
            return init
        if not contains(f, p):
            g = self.at(f, k, sub(k, ONE))
            if self.at(g, k, ZERO) is init:
                return g
            return ite(eq(k, ZERO), init, g)
        if boolean:
            if T.is_boolish(f):
                f1, f0 = T.assume(f, p, True), T.assume(f, p, False)
                if not contains(f1, p) and not contains(f0, p):
                    m = fresh("bv", {"k": "uint"})
                    if f1 is TRUE:
                        return Or(init, self.mkexists(k, m, self.at(f0, k, m)))
                    if f0 is FALSE:
                        return And(init, Not(self.mkexists(k, m, Not(self.at(f1, k, m)))))
            return self.fold1(p, init, f, k)
        if T.is_seq(p):
            r = self.solve_seq(p, init, f, k, n)
            if r is not None:
                return r
            return self.fold1(p, init, f, k)
        r = self.solve_scalar(p, init, f, k)
        return r if r is not None else self.fold1(p, init, f, k)

    def solve_scalar(self, p, init, f, k):
        d = sub(f, p)
        if not contains(d, p):
            return add(init, self.msum(k, k, d))
        if f.op != "ite" or not any(contains(a, p) for a in T.support(f)):
            q = lift(lambda x: mul(x, inv(p)), f)
            if not contains(q, p):
                m = fresh("bv", {"k": "uint"})
                return mul(init, lift(lambda x: T.mkprod(x, m, self.at(q, k, m)), k))
        if f.op == "idiv" and f.args[0] is p and not contains(f.args[1], p) and not contains(f.args[1], k):
            return T.idiv(init, T.power(f.args[1], k))
        if f.op == "ring":
            A, B = {}, {}
            okk = True
            for m, c in T.R(f).items():
                e = dict(m).get(p, 0)
                rest = tuple((x, y) for x, y in m if x is not p)
                if e == 0:
                    B[m] = c
                elif e == 1:
                    A[rest] = c
                else:
                    okk = False
            if okk:
                A, B = T.from_R(A), T.from_R(B)
                if not contains(A, p) and not contains(B, p) and not contains(A, k):
                    s = self.msum_dep(k, lambda m: mul(T.power(A, sub(sub(k, ONE), m)), self.at(B, k, m)))
                    return add(mul(init, T.power(A, k)), s)
            r = T.R(f)
            if len(r) == 1:
                (m, c), = r.items()
                if m == ((p, 2),) and c == 1:
                    return T.power(init, T.power(num(2), k))
        return None

    def msum_dep(self, n, fm):
        m = fresh("bv", {"k": "uint"})
        nf = len(T.FACTS)
        T.FACTS.append(sub(sub(n, m), ONE))
        try:
            b = fm(m)
            return T.mksum(n, m, b)
        finally:
            del T.FACTS[nf:]

    def solve_seq(self, p, init, f, k, n):
        lv = T.leaves(f)
        conds_ok = f.op != "ite" or not any(contains(a, p) for a in T.support(f))
        # appends
        if conds_ok and all(x is p or (x.op == "cat" and x.args[0] is p) for x in lv):
            tails = lift(lambda x: seqlit([]) if x is p else seqcat(*x.args[1:]), f) if f.op == "ite" else seqcat(*f.args[1:])
            if not contains(tails, p):
                ls = T.leaves(tails)
                if all(x.op == "lit" and len(x.args) == 1 for x in ls) or (tails.op == "lit" and len(tails.args) == 1):
                    return seqcat(init, self.mtab(k, k, idx(tails, ZERO)))
                if all(x.op == "lit" and len(x.args) <= 1 for x in ls):
                    c = lift(lambda x: TRUE if x.args else FALSE, tails)
                    v = constrain(lift(lambda x: x.args[0] if x.args else BOT, tails), c)
                    m = fresh("bv", {"k": "uint"})
                    return seqcat(init, T.mkfilt(k, m, self.at(c, k, m), self.at(v, k, m)))
                m = fresh("bv", {"k": "uint"})
                return seqcat(init, T.mkflat(k, m, self.at(tails, k, m)))
            # push of a function of the last element
            if f.op == "cat" and len(f.args) == 2 and f.args[1].op == "lit" and len(f.args[1].args) == 1:
                g = f.args[1].args[0]
                L = add(length(init), k)
                last = idx(p, sub(L, ONE))
                y = fresh("phi")
                y.ty = last.ty
                g2 = subst(g, {last: y})
                if not contains(g2, p):
                    li = idx(init, sub(length(init), ONE))
                    Y = self.solve1(y, li, g2, k, n)
                    m = fresh("bv", {"k": "uint"})
                    return seqcat(init, lift(lambda x: T.mktab(x, m, self.at(Y, k, add(m, ONE))), k))
            return None
        # point updates
        if f.op == "upd" and f.args[0] is p:
            i, v = f.args[1], f.args[2]
            if contains(i, p):
                return None
            cur = idx(p, i)
            if not contains(i, k):
                y = fresh("phi")
                y.ty = cur.ty
                v2 = subst(v, {cur: y})
                if contains(v2, p):
                    return None
                Y = self.solve1(y, idx(init, i), v2, k, n)
                return seqset(init, i, Y)
            c0 = sub(i, k)
            if contains(c0, k):
                return None
            # reads of other, not yet written positions see the initial value
            v2 = subst(v, {cur: idx(init, i)})
            if contains(v2, p):
                mp = {}
                for r in reads_of(v2, p):
                    if known_nonneg(sub(sub(r.args[1], i), ONE)):
                        mp[r] = idx(init, r.args[1])
                    else:
                        return None
                v2 = subst(v2, mp)
                if contains(v2, p):
                    return None
            L = length(init)

            def elem(m):
                inr = And(ge(m, c0), lt(m, add(c0, k)))
                return ite(inr, self.at(v2, k, sub(m, c0)), idx(init, m))
            return T.lazytab(init, L, k, c0, v2) or tab(L, elem)
        if f.op == "tab" and f.args[0] is length(init):
            return None
        return None

    def fold1(self, p, init, f, k):
        b = fresh("bv", {"k": "uint"})
        q = fresh("phi", p.ty)
        r = T.mkfold(k, init, lam(b, lam(q, subst(f, {k: b, p: q}))))
        if r.op == "fold" and r.ty is None:
            r.ty = p.ty
        return r

    def fold_group(self, scc, cur, k):
        # canonical order of the state components: by the fingerprint of init and step shape
        scc = sorted(scc, key=lambda p: p.args[0])
        q = fresh("phi")
        b = fresh("bv", {"k": "uint"})
        nm = {p: str(j) + T.kindtag(p.ty) for j, p in enumerate(scc)}
        init = T.adt("", None, [(nm[p], cur[p][0]) for p in scc])
        mp = {k: b}
        for j, p in enumerate(scc):
            pr = raw("proj", q, "", nm[p])
            pr.ty = p.ty
            mp[p] = pr
        body = T.adt("", None, [(nm[p], subst(cur[p][1], mp)) for p in scc])
        fold = T.mkfold(k, init, lam(b, lam(q, body)))
        out = {}
        for j, p in enumerate(scc):
            x = proj(fold, None, None, nm[p])
            if x.op == "proj" and x.ty is None:
                x.ty = p.ty
            out[p] = T.lit(x) if T.is_boolish(cur[p][0]) and not T.is_boolish(x) else x
        return out


def refact(t):
    """re-decide the comparisons of a gated term under the current facts"""
    if t.op != "ite":
        if t.op in ("adt", "tuple", "lit"):
            args = tuple(refact_arg(a) for a in t.args)
            if any(x is not y for x, y in zip(args, t.args)):
                return raw(t.op, *args)
        return t
    for a in T.support(t):
        if a.op == "ge0":
            c = T.ge0(a.args[0])
        elif a.op == "eq0":
            c = T.lift(T._eq0, a.args[0])
        else:
            continue
        if c is TRUE or c is FALSE:
            t = T.assume(t, a, c is TRUE)
            if t.op != "ite":
                return t
    return t


def refact_arg(a):
    if isinstance(a, T.Term):
        return refact(a)
    if isinstance(a, tuple):
        r = tuple(refact_arg(x) for x in a)
        return a if all(x is y for x, y in zip(r, a)) else r
    return a


def reads_of(t, p):
    out = []
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y.fp in seen:
            continue
        seen.add(y.fp)
        if y.op == "idx" and y.args[0] is p:
            out.append(y)
            continue
        if y.op == "ring":
            for m, c in y.args[0]:
                st.extend(a for a, e in m)
        else:
            st.extend(T._children(y.args))
    return out


def tarjan(nodes, deps):
    """strongly connected components, dependencies first"""
    index = {}
    low = {}
    stack = []
    on = set()
    out = []
    cnt = [0]

    def go(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        stack.append(v)
        on.add(v)
        for w in deps[v]:
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w is v:
                    break
            out.append(c)
    for v in nodes:
        if v not in index:
            go(v)
    return out


def has_ref_binding(p):
    if isinstance(p, dict):
        if p.get("k") == "bind" and p.get("ref"):
            return True
        return any(has_ref_binding(v) for v in p.values() if isinstance(v, (dict, list)))
    if isinstance(p, list):
        return any(has_ref_binding(x) for x in p)
    return False


class Call:
    """argument bundle handed to a model"""
    __slots__ = ("I", "e", "key", "args", "fr")

    def __init__(self, I, e, key, args, fr):
        self.I, self.e, self.key, self.args, self.fr = I, e, key, args, fr

    def v(self, i):
        return self.I.val(self.args[i])

    def raw(self, i):
        return self.args[i]

    def rty(self):
        return self.I.ty(self.fr, self.e["t"])

    def aty(self, i):
        return self.I.ty(self.fr, self.e["args"][i]["t"]) if self.e.get("args") and i < len(self.e["args"]) else {"k": "other", "s": "?"}

    def ga(self, i):
        g = self.e.get("ga") or []
        return self.I.targ(self.fr, g[i]) if i < len(g) else None

    @property
    def sp(self):
        return self.e.get("sp", "")
