"""Symbolic worlds: analyse a function on arbitrary arguments and obtain its outcome as a value-graph term."""
from . import terms as T
from .terms import raw, lit, ite, TRUE, FALSE, adt, num
from .interp import Interp, Frame, DB, Undecided, BOT, constrain

PANIC = raw("panic")


class Missing(Exception):
    """a public anchor of the specification no longer exists"""


class World:
    def __init__(self, db):
        self.db = db
        self.I = Interp(db)
        T.FACTS.clear()
        T.POW2.clear()

    # ------------------------------------------------------------ types
    def frame(self, body, tenv):
        return Frame(body["crate"], tenv, body)

    def fn(self, path):
        b = self.db.find(path)
        if b is None:
            raise Missing(path)
        return b

    def method(self, typ, trait, name, ref=None, crate=None):
        """impl method found by (Self type's last segment, trait, method)"""
        out = []
        for b in self.db.impls.get((trait, name), []):
            it = b["crate"].types[b["impl_self"]]
            isref = it["k"] == "ref"
            if isref:
                it = b["crate"].types[it["t"]]
            if it["k"] == "adt" and it["p"].split("::")[-1] == typ and (ref is None or ref == isref) and (crate is None or b["crate"].name == crate):
                out.append(b)
        if not out:
            raise Missing("impl %s for %s :: %s" % (trait, typ, name))
        return out[0]

    # ------------------------------------------------------------ arguments
    def typed(self, name, ty, fr=None):
        """arbitrary value of a type"""
        k = ty.get("k")
        if k == "ref":
            v = self.typed(name, ty["tt"], fr)
            if ty.get("m") or "RefCell" in ty["tt"]["s"]:
                return self.I.temp(v)
            return v
        if k == "tuple":
            return raw("tuple", *[self.typed("%s.%d" % (name, i), a, fr) for i, a in enumerate(ty["aa"])])
        if k == "bool":
            return lit(raw("param", name))
        if k == "adt":
            t = ty["p"].split("::")[-1]
            if t in ("Arc", "Rc", "Box", "RefCell", "Cell") and ty.get("aa"):
                return self.typed(name, ty["aa"][0], fr)
            a = T.ADTS.get(ty["p"])
            if a and not a["enum"]:
                cr = self.db.crates[ty["p"].split("::")[0]]
                tenv = self.adt_env(ty, cr, a)
                f2 = Frame(cr, tenv)
                fs = []
                for n, t2, pub in a["v"][0]["f"]:
                    fs.append((n, self.typed(name + "." + n, self.I.ty(f2, t2), f2)))
                return adt(ty["p"], None, fs)
        if k == "array" and ty.get("nv") is not None and T.is_num(ty["nv"]):
            return T.seqlit([self.typed("%s[%d]" % (name, i), ty["tt"], fr) for i in range(int(ty["nv"].args[0]))])
        r = raw("param", name)
        r.ty = self.I.strip_ref(ty)
        if "Rng" in ty["s"] and k in ("param", "other"):
            return raw("rng", r, num(0))
        return r

    def adt_env(self, ty, cr, a):
        """generic parameter names of the struct, in order, bound to the type arguments"""
        names = []

        def walk(i):
            t = cr.types[i]
            if t["k"] == "param" and t["n"] not in names:
                names.append(t["n"])
            for x in t.get("a", []) if isinstance(t.get("a"), list) else []:
                if isinstance(x, int):
                    walk(x)
            if isinstance(t.get("t"), int):
                walk(t["t"])
        g = a.get("g")
        if g:
            names = list(g)
        else:
            for n, t2, pub in a["v"][0]["f"]:
                walk(t2)
        return {n: x for n, x in zip(names, ty.get("aa", [])) if x is not None}

    def params(self, body, tenv, names=None):
        fr = self.frame(body, tenv)
        out = []
        for i, p in enumerate(body["params"]):
            n = names[i] if names and i < len(names) else "p%d" % i
            out.append(self.typed(n, self.I.ty(fr, p["t"]), fr))
        return out

    # ------------------------------------------------------------ running
    def reset(self):
        I = self.I
        I.panics, I.effects, I.alive = [], [], TRUE

    def call(self, body, args, tenv=None):
        """outcome of one call: (panic condition, value)"""
        if isinstance(body, str):
            body = self.fn(body)
        I = self.I
        I.panics, I.effects, I.alive = [], [], TRUE
        v = I.call(body, args, tenv or {})
        return Outcome(self, I.panics, I.alive, v, I.effects)

    def value(self, body, args, tenv=None):
        """value of a call assumed not to panic"""
        o = self.call(body, args, tenv)
        return o.val


class Outcome:
    def __init__(self, w, panics, alive, val, effects):
        self.w = w
        self.panics = [p for p in panics if p[1] in w.I.track]
        self.soft = [p for p in panics if p[1] not in w.I.track]   # out-of-bounds accesses: refused at run time, assumed away in val
        self.ok = alive
        self.raw = val
        self.val = BOT if val is BOT else w.I.M.deref_all(w.I, val)
        self.effects = list(effects)

    @property
    def panic(self):
        r = FALSE
        for p in self.panics:
            r = T.Or(r, p[0])
        return r

    def term(self):
        """one term for the whole outcome"""
        if self.ok is FALSE:
            return PANIC
        return ite(self.ok, constrain(self.val, self.ok), PANIC)


class Spec:
    """a prescription written as an abstract program over the tree's own primitives (transcript, hash, commit, ...)"""

    def __init__(self, c, w):
        self.c, self.w, self.I = c, w, w.I
        w.reset()

    def call(self, path, *args, tenv=None):
        b = self.c.body(path) if isinstance(path, str) else path
        v = self.I.call(b, list(args), tenv or {})
        return v

    def val(self, v):
        return self.I.M.deref_all(self.I, v)

    def var(self, v):
        return self.I.temp(v)

    def get(self, r):
        return self.I.val(r)

    def set(self, r, v):
        self.I.store(r, v)

    def push(self, r, v):
        self.I.store(r, T.seqcat(self.I.val(r), T.seqlit([self.val(v)])))

    def loop(self, n, body):
        self.I.loop(n, body, None, None)

    def collect(self, n, body):
        """[body(0), .., body(n-1)] with the effects of each iteration"""
        r = self.var(T.seqlit([]))
        self.loop(n, lambda k: self.push(r, body(k)))
        return self.get(r)
