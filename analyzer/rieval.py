"""Random interpretation of value-graph terms (Gulwani & Necula).

Every term denotes a function of the analysed program's symbolic inputs.  Two terms that differ as value numbers are
compared under random interpretations of their atoms: field elements are drawn from a prime field, groups are represented by
their discrete logarithms, polynomials by random coefficient lists, sequences get random small lengths, library functions that
carry no algebra (hashes, generators of randomness, serialisation) are random functions.  A disagreement under one
interpretation is a witness that the two terms denote different functions.  Nothing of the analysed program is executed: the
input is the term, i.e. the result of the abstract interpretation of the source.
"""
import os
import hashlib
import random
import time
from . import terms as T
from .terms import R, TRUE, FALSE, Term

M = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
GEN = 7
PANIC = ("panic",)


class Und(Exception):
    """the interpretation does not decide this sample"""


class Late(Exception):
    """the time set aside for this obligation is used up"""


class Oob(Und):
    """an element outside the sequence: refused at run time"""


def sgn(v):
    return v if v <= M // 2 else v - M


def hh(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=16)
    return int.from_bytes(h.digest(), "little")


# ------------------------------------------------------------------ polynomials
def ptrim(a):
    n = len(a)
    while n and a[n - 1] == 0:
        n -= 1
    return tuple(a[:n])


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    return ptrim([(x + (b[i] if i < len(b) else 0)) % M for i, x in enumerate(a)])


def pmul(a, b):
    if not a or not b:
        return ()
    if len(a) * len(b) > 400000:
        raise Und("degree")
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return ptrim([x % M for x in r])


def pdivmod(a, b):
    a = list(a)
    q = [0] * max(0, len(a) - len(b) + 1)
    il = pow(b[-1], M - 2, M)
    nz = [(j, y) for j, y in enumerate(b) if y]
    for i in range(len(a) - len(b), -1, -1):
        c = a[i + len(b) - 1] * il % M
        if c:
            q[i] = c
            for j, y in nz:
                a[i + j] = (a[i + j] - c * y) % M
    return ptrim(q), ptrim(a[:len(b) - 1])


def peval(a, z):
    r = 0
    for c in reversed(a):
        r = (r * z + c) % M
    return r


class Rat:
    __slots__ = ("n", "d")

    def __init__(self, n, d=(1,)):
        self.n, self.d = n, d

    def norm(self):
        if len(self.d) > 1:
            q, r = pdivmod(self.n, self.d)
            if not r:
                return Rat(q)
        elif self.d != (1,):
            i = pow(self.d[0], M - 2, M)
            return Rat(tuple(x * i % M for x in self.n))
        return self

    def poly(self):
        x = self.norm()
        return x.n if x.d == (1,) else None

    def at(self, z):
        d = peval(self.d, z)
        if d == 0:
            x = self.norm()
            d = peval(x.d, z)
            if d == 0:
                raise Und("pole")
            return peval(x.n, z) * pow(d, M - 2, M) % M
        return peval(self.n, z) * pow(d, M - 2, M) % M


PT = [int.from_bytes(hashlib.blake2b(b"pt%d" % i).digest()[:40], "little") % M for i in range(2)]


def rat(v):
    if isinstance(v, Rat):
        return v
    return Rat(ptrim([v % M]))


def radd(a, b):
    if a.d == b.d:
        return Rat(padd(a.n, b.n), a.d)
    return Rat(padd(pmul(a.n, b.d), pmul(b.n, a.d)), pmul(a.d, b.d))


def rmul(a, b):
    n, d = pmul(a.n, b.n), pmul(a.d, b.d)
    r = Rat(n, d)
    return r.norm() if len(d) > 1 else r


# ------------------------------------------------------------------ values
class Obj:
    """a value of unknown shape, identified by where it comes from"""
    __slots__ = ("key", "ty")

    def __init__(self, key, ty):
        self.key, self.ty = key, ty

    def __repr__(self):
        return "Obj%r" % (self.key,)


def kind(ty):
    if not ty:
        return None
    k = ty.get("k")
    if k == "uint" or k == "int":
        return "uint"
    if k == "char":
        return "char"
    if k == "bool":
        return "bool"
    if k in ("slice", "array", "str"):
        return "seq"
    if k == "adt":
        t = ty["p"].split("::")[-1]
        if t == "DensePolynomial":
            return "poly"
        if t in ("Vec", "String", "VecDeque"):
            return "seq"
        a = T.ADTS.get(ty["p"])
        if a:
            return "obj"
        if t in ("Option", "Result", "HashMap", "HashSet", "BTreeMap", "BTreeSet"):
            return "obj"
        return "num"
    if k in ("param", "other", "alias"):
        return "num" if not ty.get("s", "").startswith("impl") else "obj"
    return None


SMALL = [0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]
LENS = [0, 1, 1, 2, 2, 3, 3, 4, 4, 5]


class Env:
    def __init__(self, seed, sizes=None):
        self.seed = seed
        self.vals = {}
        self.vmask = {}         # input atoms each value was built from, as a bit set
        self.bits = {}
        self.cur = 0            # atoms read by the evaluation in progress
        self.coerced = set()
        self.cc = {}
        self.over = {}
        self.memo = {}
        self.weak = set()
        self.rank = {}          # preference among the inputs chosen to make a condition hold: field or parameter name -> rank, None = keep
        self.digits = False     # the text of the zero field element is empty
        self.small = SMALL
        self.choices = {}       # field or parameter name -> values to draw an arbitrary count from
        self.pool = None        # values the inputs are drawn from most of the time, so that they coincide
        self.rounds = None      # set: challenges depend only on the transcript round they are drawn in
        self.oracle = None      # trace of the hash outputs evaluated, innermost first
        self.sizes = sizes or LENS
        self.changed = False
        self.steps = 0
        self.deadline = None

    # ---- atoms of the interpretation
    def rnd(self, *key):
        return random.Random(hh(self.seed, *key))

    def get(self, key, ty, gen=None):
        self.cur |= self.bit(key)
        if key in self.over:
            return self.over[key]
        v = self.vals.get(key)
        if v is None:
            sv, self.cur = self.cur, 0
            try:
                v = self.vals[key] = gen() if gen else self.make(key, ty)
                self.vmask[key] = self.cur
            finally:
                self.cur |= sv
        else:
            self.cur |= self.vmask.get(key, 0)
        return v

    def bit(self, key):
        b = self.bits.get(key)
        if b is None:
            b = self.bits[key] = 1 << len(self.bits)
        return b

    def set(self, key, v):
        if self.deadline and time.time() > self.deadline:
            raise Late()
        self.set0(key, v)

    def set0(self, key, v):
        """choose the value of an atom (v None: back to its random value)"""
        if v is None:
            self.over.pop(key, None)
        else:
            self.over[key] = v
        b = self.bits.get(key)
        if b is None:
            return
        self.memo = {q: w for q, w in self.memo.items() if not w[1] & b}
        self.cc = {q: w for q, w in self.cc.items() if not w[2] & b}
        for q in [q for q, m in self.vmask.items() if m & b]:
            self.vals.pop(q, None)
            self.vmask.pop(q)

    def make(self, key, ty):
        k = kind(ty)
        r = self.rnd("atom", key)
        if k == "uint":
            return r.choice(self.choices.get(self.name(key), self.small))
        if k == "char":
            return ord(r.choice("xyzabc0123456789+*^=- "))
        if k == "num":
            if self.pool and key[0] in ("param", "proj", "idx") and r.random() < 0.8:
                return r.choice(self.pool)
            return r.choice([0, 1, 2]) if r.random() < 0.04 else r.randrange(M)
        if k == "poly":
            n = r.choice([0, 1, 2, 3, 3, 4, 5, 6])
            return Rat(ptrim([r.randrange(M) for _ in range(n)]))
        if k == "bool":
            return r.random() < 0.5
        if k == "seq":
            n = self.len_of(key, ty)
            return tuple(self.elem(key, ty, i) for i in range(n))
        return Obj(key, ty)

    def name(self, key):
        return key[3] if key[0] == "proj" and len(key) > 3 else key[1].split(".")[-1] if key[0] == "param" else None

    def len_of(self, key, ty):
        def gen():
            if ty and ty.get("k") == "array":
                n = ty.get("nv")
                if n is not None:
                    return sgn(self.num(self.ev(n)))
            return self.rnd("len", key).choice(self.sizes)
        return self.get(("len", key), None, gen)

    def elem(self, key, ty, i):
        return self.get(("idx", key, i), T.elem_ty(ty) if ty else None)

    # ---- coercions
    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Rat):
            return v
        if isinstance(v, Obj):
            k = ("num", v.key)
            if k not in self.coerced:
                self.coerced.add(k)
                self.changed = True
                self.memo, self.cc = {}, {}
            return self.get(k, {"k": "param", "s": "F"})
        return self.canon(v) % M

    def seq(self, v):
        if isinstance(v, tuple) and v and v[0] in TAGS:
            raise Und("not a sequence: %s" % (v[0],))
        if isinstance(v, tuple):
            return v
        if isinstance(v, Obj):
            k = ("seq", v.key)
            if k not in self.coerced:
                self.coerced.add(k)
                self.changed = True
                self.memo, self.cc = {}, {}
            return self.get(k, None, lambda: self.make(k, {"k": "slice", "tt": None, "s": "seq"}))
        if isinstance(v, Rat):
            p = v.poly()
            if p is None:
                raise Und("not a polynomial")
            return tuple(p)
        if isinstance(v, int):
            return (("tok", v),)
        raise Und("not a sequence")

    def canon(self, v):
        if isinstance(v, bool):
            return "b%d" % v
        if isinstance(v, int):
            return v
        if isinstance(v, Rat):
            p = v.poly()
            if p is not None:
                return hh("poly", p) if len(p) > 1 else (p[0] if p else 0)
            return hh("rat", [v.at(z) for z in PT])
        if isinstance(v, Obj):
            if ("num", v.key) in self.coerced:
                return self.canon(self.num(v))
            if ("seq", v.key) in self.coerced:
                return self.canon(self.seq(v))
            for c in ("num", "seq"):
                if (c, v.key) in self.over:
                    self.cur |= self.bit((c, v.key))
                    return self.canon(self.over[(c, v.key)])
            return hh("obj", v.key)
        if isinstance(v, tuple):
            h = self.cc.get(id(v))
            if h is not None:
                self.cur |= h[2]
                return h[1]
            sv, self.cur = self.cur, 0
            try:
                r = hh("t", [self.canon(x) for x in v])
                self.cc[id(v)] = (v, r, self.cur)
            finally:
                self.cur |= sv
            return r
        if isinstance(v, str) or v is None:
            return "s%s" % v
        if isinstance(v, dict):
            return hh("map", sorted((str(k), str(self.canon(x[1]))) for k, x in v.items()))
        raise Und("canon %r" % (type(v),))

    # ---- evaluation
    def ev(self, t, b=None):
        b = b or {}
        fv = t.fv
        if fv:
            key = (t.fp, tuple((i[1], self.ck(b.get(i[1]))) for i in sorted(fv)))
        else:
            key = t.fp
        h = self.memo.get(key)
        if h is not None:
            self.cur |= h[1]
            return h[0]
        if True:
            self.steps += 1
            if self.steps > 400000:
                raise Und("budget")
            if self.deadline and not self.steps & 255 and time.time() > self.deadline:
                raise Late()
            sv, self.cur = self.cur, 0
            try:
                r = self.ev0(t, b)
                self.memo[key] = (r, self.cur)
            finally:
                self.cur |= sv
        return r

    def ck(self, v):
        return v if isinstance(v, int) else self.canon(v)

    def ev0(self, t, b):
        f = EV.get(t.op)
        if f is None:
            raise Und("op " + t.op)
        return f(self, t, b)

    def ring(self, t, b):
        acc, racc = 0, None
        for m, c in t.args[0]:
            v = c.numerator * (pow(c.denominator, M - 2, M) if c.denominator != 1 else 1) % M
            rv = None
            for x, e in m:
                if v == 0 and e > 0:
                    continue
                y = self.num(self.ev(x, b))
                if isinstance(y, Rat):
                    y = rpow(y, e)
                    rv = y if rv is None else rmul(rv, y)
                else:
                    if e < 0 and y == 0:
                        raise Und("inverse of zero")
                    v = v * (pow(y, e, M) if e != 1 else y) % M
            if v == 0:
                continue
            if rv is None:
                acc = (acc + v) % M
            else:
                rv = Rat(tuple(x * v % M for x in rv.n), rv.d)
                racc = rv if racc is None else radd(racc, rv)
        if racc is None:
            return acc
        racc = radd(racc, rat(acc)).norm()
        return racc

    def truth(self, a, b=None):
        o = a.op
        if o == "eq0":
            v = self.num(self.ev(a.args[0], b))
            if isinstance(v, Rat):
                return not v.n
            return v == 0
        if o == "ge0":
            v = self.num(self.ev(a.args[0], b))
            if isinstance(v, Rat):
                raise Und("order of polynomials")
            return sgn(v) >= 0
        if o == "exists":
            return self.ev(a, b)
        if o in ("eqx", "eqb"):
            return self.canon(self.ev(a.args[0], b)) == self.canon(self.ev(a.args[1], b))
        if o == "isv":
            v = self.ev(a.args[0], b)
            if isinstance(v, tuple) and v and v[0] == "adt":
                return T.same_variant(v[2], a.args[1])
            return self.variant(v, a.args[1]) == a.args[1]
        v = self.ev(a, b)
        if isinstance(v, bool):
            return v
        if isinstance(v, Obj):
            return self.get(("bool", v.key), {"k": "bool"})
        raise Und("truth of " + o)

    def variant(self, v, name):
        if not isinstance(v, Obj):
            v = Obj(("v", self.canon(v)), None)
        if name in ("Some", "None"):
            opts = ["Some", "Some", "None"]
        elif name in ("Ok", "Err"):
            opts = ["Ok", "Ok", "Err"]
        else:
            a = T.ADTS.get(v.ty["p"]) if v.ty and v.ty.get("k") == "adt" else None
            if a is None:
                c = [x for x in T.ADTS.values() if x["enum"] and any(w["n"] == name for w in x["v"])]
                if len(c) < 1:
                    raise Und("variant " + str(name))
                a = c[0]
            opts = [w["n"] for w in a["v"]]
        return self.get(("variant", v.key), None, lambda: self.rnd("var", v.key).choice(opts))

    def bool(self, t, b=None):
        while t.op == "ite":
            try:
                c = self.truth(t.args[0], b)
            except Und as e:
                # the atom has no value here: it must not matter
                x, y = self.bool(t.args[1], b), self.bool(t.args[2], b)
                if x == y:
                    return x
                raise e
            t = t.args[1] if c else t.args[2]
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        return self.truth(t, b)

    def count(self, n, b):
        v = self.num(self.ev(n, b))
        if isinstance(v, Rat):
            raise Und("count")
        v = sgn(v)
        if v > 1200:
            raise Und("large count")
        return max(0, v)


def rpow(y, e):
    if e < 0:
        if not y.n:
            raise Und("inverse of zero")
        y = Rat(y.d, y.n)
        e = -e
    r = Rat((1,))
    if len(y.n) == 2 and y.n[0] == 0 and y.n[1] == 1 and y.d == (1,):
        if e > 600:
            raise Und("degree")
        return Rat((0,) * e + (1,))
    if e * max(len(y.n), len(y.d)) > 3000:
        raise Und("degree")
    while e:
        if e & 1:
            r = rmul(r, y)
        y = rmul(y, y) if e > 1 else y
        e >>= 1
    return r


EV = {}


def _exists(self, a, b):
    n = self.count(a.args[0], b)
    l = a.args[1]
    und = None
    for i in range(n):
        try:
            if self.bool(l.args[1], {**(b or {}), l.args[0]: i}):
                return True
        except Und as e:
            und = e
    if und:
        raise und
    return False


EV["exists"] = _exists
TAGS = {"adt", "dom", "hasher", "rng", "ref", "entropy", "panic", "bot", "tok"}


def op(*names):
    def d(f):
        for n in names:
            EV[n] = f
        return f
    return d


op("num")(lambda E, t, b: t.args[0].numerator * pow(t.args[0].denominator, M - 2, M) % M if t.args[0].denominator != 1 else t.args[0].numerator % M)
op("ring")(lambda E, t, b: E.ring(t, b))
op("true")(lambda E, t, b: True)
op("false")(lambda E, t, b: False)
op("panic")(lambda E, t, b: PANIC)
op("X")(lambda E, t, b: Rat((0, 1)))
op("nlimbs")(lambda E, t, b: 4)


@op("bot")
def _(E, t, b):
    raise Und("unreachable value")


@op("opq")
def _(E, t, b):
    raise Und("opaque: " + T.show(t)[:80])


@op("ite")
def _(E, t, b):
    while t.op == "ite":
        try:
            c = E.truth(t.args[0], b)
        except Und as e:
            x, y = E.ev(t.args[1], b), E.ev(t.args[2], b)
            if E.canon(x) == E.canon(y):
                return x
            raise e
        t = t.args[1] if c else t.args[2]
    return E.ev(t, b)


@op("bd")
def _(E, t, b):
    return b[t.args[0]]


@op("bigmul")
def _(E, t, b):
    x, y = E.num(E.ev(t.args[0], b)), E.num(E.ev(t.args[1], b))
    if isinstance(x, Rat) or isinstance(y, Rat):
        return rmul(rat(x), rat(y))
    return x * y % M


@op("inv")
def _(E, t, b):
    x = E.num(E.ev(t.args[0], b))
    if isinstance(x, Rat):
        if not x.n:
            raise Und("inverse of zero")
        return Rat(x.d, x.n)
    if x == 0:
        raise Und("inverse of zero")
    return pow(x, M - 2, M)


@op("pow")
def _(E, t, b):
    x, e = E.num(E.ev(t.args[0], b)), E.num(E.ev(t.args[1], b))
    if isinstance(e, Rat):
        raise Und("exponent")
    e = sgn(e)
    if isinstance(x, Rat):
        return rpow(x, e)
    if e < 0 and x == 0:
        raise Und("inverse of zero")
    return pow(x, e, M)


@op("sum")
def _(E, t, b):
    l = t.args[1]
    acc = 0
    for i in range(E.count(t.args[0], b)):
        v = E.num(E.ev(l.args[1], {**b, l.args[0]: i}))
        if isinstance(v, Rat) or isinstance(acc, Rat):
            acc = radd(rat(acc), rat(v)).norm()
        else:
            acc = (acc + v) % M
    return acc


@op("prod")
def _(E, t, b):
    l = t.args[1]
    acc = 1
    for i in range(E.count(t.args[0], b)):
        v = E.num(E.ev(l.args[1], {**b, l.args[0]: i}))
        if isinstance(v, Rat) or isinstance(acc, Rat):
            acc = rmul(rat(acc), rat(v))
        else:
            acc = acc * v % M
    return acc


@op("eq0", "ge0", "eqx", "eqb", "isv")
def _(E, t, b):
    return E.truth(t, b)


@op("firstx", "first")
def _(E, t, b):
    l = t.args[-1]
    n = E.count(t.args[0], b) if t.op == "firstx" else 300
    for i in range(n):
        if E.bool(l.args[1], {**b, l.args[0]: i}):
            return i
    if t.op == "first":
        raise Und("diverges")
    return n


@op("count")
def _(E, t, b):
    l = t.args[1]
    return sum(1 for i in range(E.count(t.args[0], b)) if E.bool(l.args[1], {**b, l.args[0]: i}))


@op("min")
def _(E, t, b):
    return min((E.num(E.ev(x, b)) for x in t.args), key=sgn)


@op("max0")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    return v if sgn(v) >= 0 else 0


def _int2(f):
    def g(E, t, b):
        x, y = E.num(E.ev(t.args[0], b)), E.num(E.ev(t.args[1], b))
        if isinstance(x, Rat) or isinstance(y, Rat):
            raise Und("integer operation")
        x, y = sgn(x), sgn(y)
        return f(x, y) % M
    return g


def _div(x, y):
    if y == 0:
        raise Und("division by zero")
    return x // y


def _mod(x, y):
    if y == 0:
        raise Und("division by zero")
    return x % y


op("idiv")(_int2(_div))
op("mod")(_int2(_mod))
op("bitand")(_int2(lambda x, y: x & y))
op("bitor")(_int2(lambda x, y: x | y))
op("bitxor")(_int2(lambda x, y: x ^ y))


@op("npow2")
def _(E, t, b):
    x = sgn(E.num(E.ev(t.args[0], b)))
    v = 1
    while v < x:
        v *= 2
    return v


@op("ilog2")
def _(E, t, b):
    x = sgn(E.num(E.ev(t.args[0], b)))
    if x <= 0:
        raise Und("log of zero")
    return x.bit_length() - 1


@op("tzeros")
def _(E, t, b):
    x = sgn(E.num(E.ev(t.args[0], b)))
    if x <= 0:
        raise Und("zeros of zero")
    return (x & -x).bit_length() - 1


@op("root")
def _(E, t, b):
    n = sgn(E.num(E.ev(t.args[0], b)))
    if n > 0 and n & (n - 1) == 0 and n <= 1 << 32:
        return pow(GEN, (M - 1) // n, M)
    return E.get(("root", n), {"k": "param", "s": "F"})


@op("generator")
def _(E, t, b):
    return E.get(("generator", str(t.args[0])), None, lambda: E.rnd("gen", str(t.args[0])).randrange(M))


# ---- polynomials
@op("interp")
def _(E, t, b):
    s = [E.num(x) for x in E.seq(E.ev(t.args[0], b))]
    n = sgn(E.num(E.ev(t.args[1], b)))
    if not (0 < n <= 128 and n & (n - 1) == 0):
        raise Und("domain size")
    s = [x if not isinstance(x, Rat) else E.canon(x) % M for x in s]
    if len(s) > n:
        raise Und("more evaluations than points")
    s += [0] * (n - len(s))
    w = pow(pow(GEN, (M - 1) // n, M), M - 2, M)
    ni = pow(n, M - 2, M)
    tw = [1]
    for i in range(n - 1):
        tw.append(tw[-1] * w % M)
    return Rat(ptrim([sum(s[i] * tw[i * j % n] for i in range(n) if s[i]) * ni % M for j in range(n)]))


@op("fromcoeffs")
def _(E, t, b):
    return Rat(ptrim([E.num(x) if not isinstance(E.num(x), Rat) else E.canon(x) % M for x in E.seq(E.ev(t.args[0], b))]))


def aspoly(E, v):
    p = rat(E.num(v)).poly()
    return p


@op("coeffs")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    p = aspoly(E, v)
    if p is None:
        c = E.canon(v)
        n = E.rnd("clen", c).choice([2, 3, 4])
        return tuple(E.get(("pcoef", c, i), {"k": "param", "s": "F"}) for i in range(n))
    return tuple(p)


@op("clen")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    p = aspoly(E, v)
    if p is None:
        return E.rnd("clen", E.canon(v)).choice([2, 3, 4])
    return len(p)


@op("pcoef")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    i = sgn(E.num(E.ev(t.args[1], b)))
    p = aspoly(E, v)
    if p is None:
        return E.get(("pcoef", E.canon(v), i), {"k": "param", "s": "F"})
    return p[i] if 0 <= i < len(p) else 0


@op("peval")
def _(E, t, b):
    v, z = E.num(E.ev(t.args[0], b)), E.num(E.ev(t.args[1], b))
    if isinstance(z, Rat):
        raise Und("evaluation at a polynomial")
    return rat(v).at(z)


@op("prem")
def _(E, t, b):
    v, d = E.num(E.ev(t.args[0], b)), E.num(E.ev(t.args[1], b))
    key = ("prem", E.canon(v), E.canon(d))
    E.cur |= E.bit(key)
    if key in E.over:
        return E.over[key]
    p, q = rat(v).poly(), rat(d).poly()
    if p is None or q is None or not q:
        return E.get(key, {"k": "param", "s": "F"})
    return Rat(pdivmod(p, q)[1])


# ---- structures
@op("adt")
def _(E, t, b):
    return ("adt", t.args[0].split("::")[-1] if t.args[0] else "", t.args[1], tuple((n, E.ev(v, b)) for n, v in t.args[2]))


@op("tuple")
def _(E, t, b):
    return ("adt", "()", None, tuple((str(i), E.ev(v, b)) for i, v in enumerate(t.args)))


AFFINE = ("x", "y", "infinity")


def affine(t):
    ty = t.args[0].ty or {}
    return any((x or "").endswith("Affine") or "Affine<" in (x or "") for x in (t.args[1], ty.get("p"), ty.get("s")) if isinstance(x, str))


@op("proj")
def _(E, t, b):
    v = E.ev(t.args[0], b)
    if isinstance(v, tuple) and v and v[0] == "adt":
        for n, x in v[3]:
            if n == t.args[2]:
                return x
        raise Und("projection of the wrong variant")
    if isinstance(v, Obj):
        return E.get(("proj", v.key, t.args[1], t.args[2]), t.ty)
    if isinstance(v, int) and t.args[2] in AFFINE and affine(t):
        # the coordinates of a point: those of -P are x, -y
        a, b = min(v, (M - v) % M), max(v, (M - v) % M)
        if t.args[2] == "infinity":
            return v == 0
        if v == 0:
            return 0
        x = hh("coordinate", t.args[2], a) % M
        return x if t.args[2] == "x" or v == a else (M - x) % M
    return E.get(("proj", E.canon(v), t.args[1], t.args[2]), t.ty)


@op("param")
def _(E, t, b):
    return E.get(("param", t.args[0]), t.ty)


@op("lit")
def _(E, t, b):
    return tuple(E.ev(x, b) for x in t.args)


@op("tab")
def _(E, t, b):
    l = t.args[1]
    return tuple(E.ev(l.args[1], {**b, l.args[0]: i}) for i in range(E.count(t.args[0], b)))


@op("cat")
def _(E, t, b):
    r = ()
    for x in t.args:
        r += E.seq(E.ev(x, b))
    return r


@op("flat")
def _(E, t, b):
    l = t.args[1]
    r = ()
    for i in range(E.count(t.args[0], b)):
        r += E.seq(E.ev(l.args[1], {**b, l.args[0]: i}))
    return r


@op("filt")
def _(E, t, b):
    c, l = t.args[1], t.args[2]
    return tuple(E.ev(l.args[1], {**b, l.args[0]: i}) for i in range(E.count(t.args[0], b)) if E.bool(c.args[1], {**b, c.args[0]: i}))


@op("upd")
def _(E, t, b):
    s = list(E.seq(E.ev(t.args[0], b)))
    i = sgn(E.num(E.ev(t.args[1], b)))
    if not 0 <= i < len(s):
        # a store under a condition is summarised as storing "if c then new else the old element": nothing is stored when not c
        v = t.args[2]
        while v.op == "ite":
            v = v.args[1] if E.bool(v.args[0], b) else v.args[2]
        if v.op == "idx" and v.args[0] is t.args[0] and v.args[1] is t.args[1]:
            return tuple(s)
        raise Oob("index")
    s[i] = E.ev(t.args[2], b)
    return tuple(s)


@op("slice")
def _(E, t, b):
    s = E.seq(E.ev(t.args[0], b))
    i, j = sgn(E.num(E.ev(t.args[1], b))), sgn(E.num(E.ev(t.args[2], b)))
    return s[max(0, i):max(0, j)]


@op("rotl")
def _(E, t, b):
    s = E.seq(E.ev(t.args[0], b))
    i = sgn(E.num(E.ev(t.args[1], b)))
    i = i % len(s) if s else 0
    return s[i:] + s[:i]


@op("dedup")
def _(E, t, b):
    out = []
    for x in E.seq(E.ev(t.args[0], b)):
        if not out or E.canon(out[-1]) != E.canon(x):
            out.append(x)
    return tuple(out)


@op("sorted")
def _(E, t, b):
    s = E.seq(E.ev(t.args[0], b))
    if any(isinstance(x, bool) or not isinstance(x, int) for x in s):
        raise Und("order of non-numbers")
    return tuple(sorted(s))


@op("rev")
def _(E, t, b):
    return E.seq(E.ev(t.args[0], b))[::-1]


@op("idx")
def _(E, t, b):
    s = E.seq(E.ev(t.args[0], b))
    i = sgn(E.num(E.ev(t.args[1], b)))
    if not 0 <= i < len(s):
        raise Oob("index %d of %d" % (i, len(s)))
    return s[i]


@op("len")
def _(E, t, b):
    return len(E.seq(E.ev(t.args[0], b)))


@op("fold")
def _(E, t, b):
    l = t.args[2]
    n = E.count(t.args[0], b)
    s = E.ev(t.args[1], b)
    inner = l.args[1]
    for i in range(n):
        if inner.op != "lam":
            raise Und("fold")
        s = E.ev(inner.args[1], {**b, l.args[0]: i, inner.args[0]: s})
    return s


# ---- bytes, hashes, randomness
@op("serbytes")
def _(E, t, b):
    c = E.canon(E.ev(t.args[0], b))
    n = 48
    ty = (t.args[0].ty or {}).get("s", "")
    if len(t.args) > 2:
        n = t.args[2]
    elif "FrConfig" in ty:
        n = 32
    elif "G1" in ty or "Affine" in ty:
        n = 96 if str(t.args[1]) == "u" else 48
    return tuple(("tok", "sb", c, str(t.args[1]), i, n) for i in range(n))


@op("lebytes")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    n = t.args[1]
    if isinstance(v, int) and v < 1 << (8 * n):
        return tuple((v >> (8 * i)) & 255 for i in range(n))
    return tuple(("tok", "lb", E.canon(v), i) for i in range(n))


@op("tostr")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    return tuple(ord(c) for c in str(v)) if v or not E.digits else ()


@op("hash")
def _(E, t, b):
    v = E.ev(t.args[1], b)
    c = hh("hash", str(t.args[0]), E.canon(v))
    if getattr(E, "trace_hash", False):
        E.hashed[c] = E.seq(v)
    return tuple(("tok", "hb", c, i) for i in range(32))


def fld(E, key):
    return E.get(key, None, lambda: E.rnd("uf", key).randrange(M))


@op("lemod")
def _(E, t, b):
    s = E.ev(t.args[0], b)
    if isinstance(s, tuple) and all(isinstance(x, int) and not isinstance(x, bool) for x in s):
        return sum(x << (8 * i) for i, x in enumerate(s)) % M
    k = ("lemod", E.canon(s))
    if E.oracle is not None:
        E.oracle.append(k)
    return fld(E, k)


@op("leint")
def _(E, t, b):
    s = E.ev(t.args[0], b)
    if isinstance(s, tuple) and all(isinstance(x, int) and not isinstance(x, bool) for x in s):
        return sum(x << (8 * i) for i, x in enumerate(s)) % M
    k = ("leint", E.canon(s))
    return E.get(k, None, lambda: E.rnd(k).randrange(1 << 64))


DEPTH = {}


def nesting(t):
    """number of nested hash computations in a term"""
    d = DEPTH.get(t.fp)
    if d is None:
        st = [(t, False)]
        while st:
            x, done = st.pop()
            if x.fp in DEPTH:
                continue
            cs = [y for y in T._children(x.args)]
            if done:
                DEPTH[x.fp] = max([DEPTH[y.fp] for y in cs] or [0]) + (x.op == "hash")
            else:
                st.append((x, True))
                st += [(y, False) for y in cs if y.fp not in DEPTH]
        d = DEPTH[t.fp]
    return d


@op("rand")
def _(E, t, b):
    k = ("rand", E.canon(E.ev(t.args[0], b)), E.canon(E.ev(t.args[1], b)) if isinstance(t.args[1], Term) else str(t.args[1]))
    ty = str(t.args[2]) if len(t.args) > 2 else ""
    if E.rounds is not None and t.args[0].op != "entropy":
        k = ("round", nesting(t), k[2])
    if ty in ("usize", "u64", "u32", "u8", "u16"):
        return E.get(k, None, lambda: E.rnd(k).randrange(1 << 32))
    return fld(E, k)


@op("limb")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    i = sgn(E.num(E.ev(t.args[1], b)))
    if isinstance(v, Rat):
        raise Und("limb")
    return (v >> (64 * i)) & ((1 << 64) - 1)


@op("bigint")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    return tuple((v >> (64 * i)) & ((1 << 64) - 1) for i in range(5))


def _uf(E, t, b, ty=None):
    def c(a):
        if isinstance(a, Term):
            if a.op == "lam":
                raise Und("lambda argument")
            return E.canon(E.ev(a, b))
        if isinstance(a, tuple):
            return tuple(c(x) for x in a)
        return str(a)
    key = (t.op,) + tuple(c(a) for a in t.args)
    return key


@op("entropy")
def _(E, t, b):
    return ("entropy",) + _uf(E, t, b)[1:]


@op("rng", "hasher", "dom")
def _(E, t, b):
    return (t.op,) + _uf(E, t, b)[1:]


_WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64}


@op("trunc")
def _(E, t, b):
    x, n = sgn(E.num(E.ev(t.args[0], b))), str(t.args[1])
    if n not in _WIDTH:
        return fld(E, _uf(E, t, b))
    x &= (1 << _WIDTH[n]) - 1
    if n[0] == "i" and x >> (_WIDTH[n] - 1):
        x -= 1 << _WIDTH[n]
    return x


@op("seed", "hstate", "randbyte", "randin", "unbig")
def _(E, t, b):
    return fld(E, _uf(E, t, b))


@op("ext", "extconst", "default", "limbs", "dbgstr", "mapof", "setof", "mentries", "seqmax", "seqmin", "str", "strfn1", "closure", "fnitem",
    "setf", "mget", "mput", "mdel", "fold?", "bitnot")
def _(E, t, b):
    k = _uf(E, t, b)
    return E.get(k, t.ty)


@op("domok")
def _(E, t, b):
    # a field has multiplicative subgroups of the powers of two up to some cap
    n = sgn(E.num(E.ev(t.args[0], b)))
    cap = E.get(("domcap",), None, lambda: 1 << E.rnd("domcap").choice([1, 2, 3, 8, 30]))
    return n <= cap


@op("strp", "mapempty", "mhas")
def _(E, t, b):
    k = _uf(E, t, b)
    return E.get(k, {"k": "bool"})


@op("maplen", "dsize", "biglimbs")
def _(E, t, b):
    k = _uf(E, t, b)
    return E.get(k, {"k": "uint"})


@op("map")
def _(E, t, b):
    r = {}
    for k, v in t.args[0]:
        kk = E.ev(k, b)
        r[E.canon(kk)] = (kk, E.ev(v, b))
    return r


@op("charp")
def _(E, t, b):
    v = E.num(E.ev(t.args[0], b))
    n = str(t.args[1])
    if isinstance(v, int) and v < 128:
        c = chr(v)
        m = {"is_numeric": c.isnumeric(), "is_ascii_digit": c.isdigit(), "is_alphabetic": c.isalpha(), "is_alphanumeric": c.isalnum(),
             "is_whitespace": c.isspace(), "is_digit": c.isdigit(), "is_ascii_alphabetic": c.isalpha(), "is_lowercase": c.islower(),
             "is_uppercase": c.isupper()}
        if n in m:
            return m[n]
    return E.get(_uf(E, t, b), {"k": "bool"})


def _text(E, v):
    s = E.seq(v)
    if all(isinstance(x, int) and not isinstance(x, bool) and x < 128 for x in s):
        return "".join(map(chr, s))
    return None


@op("strfn")
def _(E, t, b):
    n = t.args[0]
    if n in ("to_lowercase", "to_uppercase", "trim", "to_ascii_lowercase"):
        s = _text(E, E.ev(t.args[1], b))
        if s is not None:
            r = {"to_lowercase": s.lower(), "to_ascii_lowercase": s.lower(), "to_uppercase": s.upper(), "trim": s.strip()}[n]
            return tuple(map(ord, r))
    return E.get(_uf(E, t, b), t.ty)


@op("split")
def _(E, t, b):
    s, c = _text(E, E.ev(t.args[0], b)), E.ev(t.args[1], b)
    if s is not None and isinstance(c, int) and str(t.args[2]).endswith("::split"):
        return tuple(tuple(map(ord, x)) for x in s.split(chr(c)))
    return E.get(_uf(E, t, b), {"k": "slice", "tt": {"k": "str", "s": "str"}, "s": "split"})


@op("parse")
def _(E, t, b):
    s = _text(E, E.ev(t.args[0], b))
    if s is not None:
        import re
        signed = "i" in str(t.args[1])[:1]
        if re.fullmatch(r"[+-]?\d+" if signed else r"\+?\d+", s):
            return ("adt", "Result", "Ok", (("0", int(s) % M),))
        return ("adt", "Result", "Err", (("0", ("adt", "()", None, ())),))
    return Obj(_uf(E, t, b), None)


# ------------------------------------------------------------------ directed interpretations
def path(t, rnd, avoid=()):
    """a random decision path of a gated term: [(atom, truth)], leaf"""
    out = []
    while t.op == "ite":
        hi, lo = t.args[1], t.args[2]
        if hi in avoid and lo not in avoid:
            v = rnd.random() < 0.15
        elif lo in avoid and hi not in avoid:
            v = rnd.random() > 0.15
        else:
            v = rnd.random() < 0.5
        out.append((t.args[0], v))
        t = hi if v else lo
    return out, t


FREE = {"param", "proj", "idx", "rand", "ext", "len", "lemod", "leint", "seed", "hash", "limb", "randin", "default", "extconst", "dsize"}


def free_key(E, x, b, seq=False):
    """key under which the interpretation of an atom may be chosen, or None"""
    o = x.op
    if o in ("param", "proj", "idx") and not seq:
        v = E.ev(x, b)
        if isinstance(v, tuple) or isinstance(v, Obj) and ("seq", v.key) in E.coerced:
            return None
    if o == "param":
        return ("param", x.args[0])
    if o == "proj":
        v = E.ev(x.args[0], b)
        if isinstance(v, tuple) and v and v[0] == "adt":
            return None
        return ("proj", v.key if isinstance(v, Obj) else E.canon(v), x.args[1], x.args[2])
    if o == "idx":
        k = seq_key(E, x.args[0], b)
        if k is None:
            return None
        return ("idx", k, sgn(E.num(E.ev(x.args[1], b))))
    if o == "len":
        k = seq_key(E, x.args[0], b)
        return ("len", k) if k is not None else None
    if o == "lemod":
        return ("lemod", E.canon(E.ev(x.args[0], b)))
    if o == "leint":
        return ("leint", E.canon(E.ev(x.args[0], b)))
    if o == "rand":
        return ("rand", E.canon(E.ev(x.args[0], b)), E.canon(E.ev(x.args[1], b)) if isinstance(x.args[1], Term) else str(x.args[1]))
    if o in ("ext", "default", "extconst"):
        return _uf(E, x, b)
    if o == "prem":
        return ("prem", E.canon(E.num(E.ev(x.args[0], b))), E.canon(E.num(E.ev(x.args[1], b))))
    return None


def seq_key(E, s, b):
    """identity of an arbitrary input sequence"""
    if s.op in ("param", "proj", "ext"):
        k = free_key(E, s, b, True)
        v = E.ev(s, b)
        if isinstance(v, Obj):
            E.seq(v)
            return ("seq", v.key)
        return k
    if s.op == "idx":
        k = free_key(E, s, b, True)
        v = E.ev(s, b)
        if isinstance(v, Obj):
            E.seq(v)
            return ("seq", v.key)
        return k
    if s.op == "ite":
        t = s
        while t.op == "ite":
            t = t.args[1] if E.truth(t.args[0], b) else t.args[2]
        return seq_key(E, t, b)
    return None


def resolve(E, t, b):
    """gated arguments resolved under the interpretation"""
    while t.op == "ite":
        t = t.args[1] if E.truth(t.args[0], b) else t.args[2]
    return t


def isint(x):
    return T.nonneg_atom(x) or (x.ty or {}).get("k") in ("uint", "int") or x.op == "len"


def force(E, atom, v, b, rnd, depth=0):
    """try to choose the interpretation so that atom has truth value v"""
    b = b or {}
    try:
        if E.truth(atom, b) == v:
            return True
    except Und:
        pass
    if depth > 6:
        return False
    o = atom.op
    if o in ("eq0", "ge0"):
        d = atom.args[0]
        if o == "eq0" and not v:
            return retry(E, atom, v, d, b, rnd)
        if o == "ge0":
            return retry(E, atom, v, d, b, rnd, ints=True)
        return solve(E, d, b, rnd, atom)
    if o == "exists":
        l = atom.args[1]
        n = E.count(atom.args[0], b)
        if v:
            if n == 0:
                return False
            k = rnd.randrange(n)
            return force_cond(E, l.args[1], True, {**b, l.args[0]: k}, rnd, depth + 1)
        ok = True
        for k in range(n):
            ok &= force_cond(E, l.args[1], False, {**b, l.args[0]: k}, rnd, depth + 1)
        return ok
    if o == "isv":
        x = E.ev(atom.args[0], b)
        if isinstance(x, Obj):
            name = atom.args[1]
            if v:
                E.set(("variant", x.key), name)
            else:
                E.variant(x, name)
                opts = {"Some": "None", "Ok": "Err", "None": "Some", "Err": "Ok"}
                if name in opts:
                    E.set(("variant", x.key), opts[name])
                else:
                    a = T.ADTS.get(x.ty["p"]) if x.ty and x.ty.get("k") == "adt" else None
                    if not a:
                        return False
                    E.set(("variant", x.key), rnd.choice([w["n"] for w in a["v"] if w["n"] != name]))
            return True
        return False
    if o == "param":
        E.set(("param", atom.args[0]), v)
        return True
    if o == "domok":
        n = sgn(E.num(E.ev(atom.args[0], b)))
        E.set(("domcap",), max(n, 1 << 20) if v else max(n // 2, 1))
        return E.truth(atom, b) == v
    return False


def force_cond(E, c, v, b, rnd, depth=0):
    for _ in range(3):
        p = cond_path(E, c, v, rnd)
        if p is None:
            return False
        ok = True
        for a, w in p:
            try:
                ok &= force(E, a, w, b, rnd, depth + 1)
            except Und:
                ok = False
        try:
            if E.bool(c, b) == v:
                return True
        except Und:
            pass
    return False


def cond_path(E, c, v, rnd):
    goal, bad = (TRUE, FALSE) if v else (FALSE, TRUE)
    memo = {}

    def reach(t):
        if t.op != "ite":
            return t is goal
        r = memo.get(t.fp)
        if r is None:
            r = memo[t.fp] = reach(t.args[1]) or reach(t.args[2])
        return r
    if not reach(c):
        return None
    out = []
    while c.op == "ite":
        h, l = reach(c.args[1]), reach(c.args[2])
        w = rnd.random() < 0.5 if h and l else h
        out.append((c.args[0], w))
        c = c.args[1] if w else c.args[2]
    return out


def deep_atoms(d, lim=60):
    """settable atoms inside a term, outermost first"""
    out, seen, st = [], set(), [d]
    while st and len(out) < lim:
        y = st.pop(0)
        if y.fp in seen:
            continue
        seen.add(y.fp)
        if y.op in FREE:
            out.append(y)
        if y.op == "ring":
            st.extend(a for m, c in y.args[0] for a, e in m)
        elif y.op == "ite":
            st.extend(y.args)
        else:
            st.extend(T._children(y.args))
    return out


def ufree(x, b):
    return all(i[0] != "b" or i[1] in b for i in x.fv)


def retry(E, atom, v, d, b, rnd, ints=False):
    ats = [x for x in deep_atoms(d) if ufree(x, b) and (not ints or isint(x))]
    if ints and not ats and measure(E, atom, v, d, b, rnd):
        return True
    rnd.shuffle(ats)
    ats = [x for x in ats if rank(E, x) is not None]
    ats.sort(key=lambda x: rank(E, x))
    for x in ats[:6]:
        for turn in range(6):
            try:
                k = free_key(E, x, b)
            except Und:
                break
            if k is None:
                break
            old = E.over.get(k)
            near = []
            if isint(x) and ints and not turn:
                near = threshold(E, k, old, d, b)
            if not isint(x) and not turn:
                near = relatives(E, x, b)
            if isint(x) and not near and rnd.random() < 0.6:
                try:
                    near = [sgn(E.num(E.ev(x, b))) + o for o in (-2, -1, 1, 2)]
                    near = [w for w in near if 0 <= w <= 64]
                except Und:
                    pass
            E.set(k, rnd.choice(near) if near else rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16] if E.name(k) not in E.choices or rnd.random() < 0.3 else E.choices[E.name(k)]) if isint(x) else rnd.randrange(M))
            try:
                if E.truth(atom, b) == v:
                    return True
            except Und:
                pass
            E.set(k, old)
    return False


def measure(E, atom, v, d, b, rnd):
    """a condition on the length of a polynomial or list: choose that length"""
    for x in deep_atoms(d):
        if not ufree(x, b) or x.op not in ("param", "proj"):
            continue
        ty = kind(x.ty)
        try:
            k = ("len", seq_key(E, x, b)) if ty == "seq" else free_key(E, x, b) if ty == "poly" else None
            if k is None or k[1] is None:
                continue
            old = E.over.get(k)
            to = lambda n: E.set(k, n if ty == "seq" else Rat([rnd.randrange(1, M) for _ in range(n)]))
            to(2)
            d2 = sgn(E.num(E.ev(d, b)))
            to(3)
            d3 = sgn(E.num(E.ev(d, b)))
            s = -d2 // (d3 - d2) + 2 if d3 != d2 else -1
            for n in rnd.sample([s - 1, s, s + 1, s + 2, s + 3], 5):
                if 0 <= n <= 1100:
                    to(n)
                    if E.truth(atom, b) == v:
                        return True
            E.set(k, old)
        except (Und, Oob, TypeError):
            continue
    return False


REL = [0]


def relatives(E, x, b):
    """a value that differs from the current one but is related to it: its negation, a neighbour, a change of one word, the inverse"""
    try:
        v = E.ev(x, b)
    except Und:
        return []
    if not isinstance(v, int) or isinstance(v, bool):
        return []
    REL[0] += 1
    n = REL[0] % 8
    if n % 2:
        return []
    return [{0: (M - v) % M, 2: (v + (1 << (64 * (REL[0] // 8 % 4)))) % M, 4: (M - v) % M, 6: pow(v, M - 2, M) if REL[0] & 8 else v & (1 << 64) - 1}[n]]


def threshold(E, k, old, d, b):
    """the value at which d, affine in this integer, changes its sign"""
    try:
        setv(E, k, 1)
        d1 = sgn(E.num(E.ev(d, b)))
        setv(E, k, 2)
        d2 = sgn(E.num(E.ev(d, b)))
        s = -d1 // (d2 - d1) + 1 if d2 != d1 else -1
        return [x for x in (s - 1, s, s + 1, s + 1) if 0 <= x <= 1100]
    except (Und, Oob, TypeError):
        return []
    finally:
        E.set(k, old)


def setv(E, k, v):
    E.set(k, v)


def unset(E, k, old):
    E.set(k, old)


def solve(E, d, b, rnd, atom):
    """d == 0 by choosing one atom in which d is affine"""
    d = resolve(E, d, b)
    cands = []
    for m, c in R(d).items():
        for x, e in m:
            if e == 1 and ufree(x, b):
                y = x
                if y.op in FREE or y.op == "prem":
                    cands.append((rank(E, y), 0 if len(m) == 1 else 1, rnd.random(), y))
    deep = [(rank(E, x), 2, rnd.random(), x) for x in deep_atoms(d, 40) if ufree(x, b)]
    cands = [c for c in cands + deep if c[0] is not None]
    cands.sort(key=lambda t: t[:3])
    seen = set()
    tries = 0
    for _, _, _, x in cands:
        if x.fp in seen:
            continue
        seen.add(x.fp)
        tries += 1
        if tries > 10:
            break
        try:
            k = free_key(E, x, b)
        except Und:
            continue
        if k is None:
            continue
        old = E.over.get(k)
        if k[0] == "prem":
            setv(E, k, 0)
            E.weak.add(k)
            try:
                if E.truth(atom, b):
                    return True
            except Und:
                pass
            unset(E, k, old)
            continue
        try:
            setv(E, k, 0)
            d0 = E.num(E.ev(d, b))
            setv(E, k, 1)
            d1 = E.num(E.ev(d, b))
            if isinstance(d0, Rat) or isinstance(d1, Rat) or d0 == d1:
                raise Und("not affine")
            s = (-d0) * pow((d1 - d0) % M, M - 2, M) % M
            if isint(x) and not 0 <= sgn(s) <= 64:
                raise Und("range")
            setv(E, k, s)
            if E.truth(atom, b):
                return True
        except Und:
            pass
        unset(E, k, old)
    # a hash output inside a loop: program the last one
    E.oracle = []
    E.memo = {}
    try:
        E.ev(d, b)
        tr = E.oracle
    except Und:
        tr = []
    E.oracle = None
    for k in list(reversed(tr))[:2]:
        old = E.over.get(k)
        try:
            setv(E, k, 0)
            d0 = E.num(E.ev(d, b))
            setv(E, k, 1)
            d1 = E.num(E.ev(d, b))
            if isinstance(d0, Rat) or isinstance(d1, Rat) or d0 == d1:
                raise Und("not affine")
            setv(E, k, (-d0) * pow((d1 - d0) % M, M - 2, M) % M)
            if E.truth(atom, b):
                return True
        except Und:
            pass
        unset(E, k, old)
    return False


def rank(E, x):
    if not E.rank:
        return 5
    y = x
    while True:
        if y.op == "proj":
            if y.args[2] in E.rank:
                return E.rank[y.args[2]]
            y = y.args[0]
        elif y.op in ("idx", "len"):
            y = y.args[0]
        elif y.op == "param":
            return E.rank.get(y.args[0], E.rank.get(y.args[0].split(".")[-1], E.rank.get("*", 5)))
        else:
            return E.rank.get(y.op, E.rank.get("*", 5))


# ------------------------------------------------------------------ comparison
class Cmp:
    def __init__(self, verdict, samples=0, nonpanic=0, und=0, witness=None, reason=""):
        self.verdict, self.samples, self.nonpanic, self.und, self.witness, self.reason = verdict, samples, nonpanic, und, witness, reason


def outcome(E, t, soft):
    for c in soft:
        E.steps = 0
        try:
            if E.bool(c):
                return PANIC
        except Und:
            pass
    try:
        return E.ev(t)
    except Oob:
        return PANIC


def settle(E, t, soft=()):
    """value of a term once all coercions are established"""
    for _ in range(6):
        E.changed = False
        E.memo, E.cc = {}, {}
        E.steps = 0
        v = outcome(E, t, soft)
        c = E.canon(v)
        if not E.changed:
            return v, c
    return v, c


def describe(E, t, limit=24):
    """the part of the interpretation a term depends on, readable"""
    out = []
    for k, v in list(E.over.items())[:limit]:
        out.append("%s := %s" % (fmtkey(k), fmtval(v)))
    return out


def fmtkey(k):
    if isinstance(k, tuple):
        if k[0] == "param":
            return str(k[1])
        if k[0] == "idx":
            return "%s[%s]" % (fmtkey(k[1]), k[2])
        if k[0] == "len":
            return "len(%s)" % fmtkey(k[1])
        if k[0] == "proj":
            return "%s.%s" % (fmtkey(k[1]), k[3])
        if k[0] in ("num", "seq", "variant"):
            return fmtkey(k[1])
        return "%s(..)" % k[0]
    return str(k)[:20]


def fmtval(v):
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(sgn(v)) if abs(sgn(v)) < 10 ** 6 else "~%x" % (v % (1 << 32))
    if isinstance(v, Rat):
        return "poly"
    if isinstance(v, tuple) and v and v[0] == "adt":
        return "%s%s{%s}" % (v[1], "::" + v[2] if v[2] else "", ", ".join("%s: %s" % (n, fmtval(x)) for n, x in v[3]))
    if isinstance(v, tuple):
        return "[" + ", ".join(fmtval(x) for x in v[:6]) + (", …" if len(v) > 6 else "") + "]"
    return str(v)[:40]


def first_diff(E, a, b, path="result"):
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "adt" and a[1:3] == b[1:3]:
        for (n, x), (m, y) in zip(a[3], b[3]):
            if E.canon(x) != E.canon(y):
                return first_diff(E, x, y, path + "." + n)
    return "%s: expected %s, found %s" % (path, fmtval(a), fmtval(b))


def consts(t, lim=40000):
    """integer constants a term mentions"""
    out, seen, st = set(), set(), [t]
    while st and len(seen) < lim:
        y = st.pop()
        if y.fp in seen:
            continue
        seen.add(y.fp)
        if y.op == "num":
            if y.args[0].denominator == 1:
                out.add(abs(int(y.args[0])))
        elif y.op == "ring":
            for m, c in y.args[0]:
                out.add(abs(int(c)) if c.denominator == 1 else c.denominator)
                st.extend(a for a, e in m)
        else:
            st.extend(T._children(y.args))
    return out


def around(spec, impl):
    """sizes near the constants the code mentions and the prescription does not"""
    c = sorted(x for x in consts(impl) - consts(spec) if 2 < x <= 1100)
    c = [x for x in c if x <= 64][:4] + [x for x in c if x > 64][:2]
    return [v for x in c for v in (x - 1, x, x + 1, x + 2)]


def compare(spec, impl, n=60, seed=1, budget=20.0, soft=((), ()), assume=TRUE, choices=None, pool=6):
    """decide whether two terms denote the same function"""
    if spec is impl:
        return Cmp("identical")
    t0 = time.time()
    REL[0] = 0
    rnd = random.Random(seed)
    done = nonp = und = weak = 0
    leaves = set()
    reason = ""
    wit = None
    pan = T.raw("panic")
    near = around(spec, impl)
    aims = steering([spec, impl])
    rnd.shuffle(aims)
    for i in range(n + 2 * len(aims)):
        if time.time() - t0 > budget:
            break
        E = Env((seed, i), LENS if i % 3 else [2, 3, 4, 4])
        E.choices = choices or {}
        if i % pool == pool - 2:
            E.pool = [0, 0, 1, M - 1, rnd.randrange(M)]
        if near and i % 4 == 3:
            few = near if i % 12 == 3 else [x for x in near if x <= 66]
            E.sizes = E.sizes + few * 3
            E.small = SMALL + few * 3
            if few:
                E.choices = {}
        E.deadline = t0 + budget
        try:
            if assume is not TRUE:
                force_cond(E, assume, True, {}, rnd)
            src = (impl, spec, None)[i % 3] if i else None
            if src is not None and src.op == "ite":
                p, leaf = path(src, rnd, avoid=(pan, T.ERR))
                for _ in range(2):
                    for a, v in p:
                        try:
                            E.steps = 0
                            force(E, a, v, {}, rnd)
                        except Und:
                            pass
                if assume is not TRUE:
                    force_cond(E, assume, True, {}, rnd)
            if aims and i % 2 and i > 6:
                for _ in range(1 if i // 2 < len(aims) else 2):
                    aim_at(E, aims[(i // 2) % len(aims)] if not _ else rnd.choice(aims), rnd)
                if assume is not TRUE:
                    force_cond(E, assume, True, {}, rnd)
            if i % 2:
                # stay within bounds: out-of-bounds accesses are refused at run time
                for sc in tuple(soft[1])[:24]:
                    try:
                        E.steps = 0
                        if E.bool(sc):
                            force_cond(E, sc, False, {}, rnd)
                    except (Und, Oob):
                        pass
            if assume is not TRUE and not E.bool(assume):
                continue
            for _ in range(4):
                E.changed = False
                E.memo, E.cc = {}, {}
                E.steps = 0
                vs, cs = settle(E, spec, soft[0])
                vi, ci = settle(E, impl, soft[1])
                E.steps = 0
                E.memo, E.cc = {}, {}
                if not E.changed:
                    break
        except Late:
            reason = reason or "time"
            break
        except Und as e:
            und += 1
            reason = str(e)
            continue
        except RecursionError:
            und += 1
            continue
        done += 1
        if vs != PANIC or vi != PANIC:
            nonp += 1
        if cs != ci:
            if E.weak:
                # the interpretation fixed the value of a remainder: confirm with a second one
                weak += 1
                if weak < 2:
                    wit = (E, vs, vi)
                    continue
            return Cmp("differ", done, nonp, und, witness=(first_diff(E, vs, vi), describe(E, impl)), reason=reason)
    if done == 0 or nonp == 0:
        return Cmp("undecided", done, nonp, und, reason=reason)
    return Cmp("agree", done, nonp, und, reason=reason)


def alpha(t):
    """identity of an open term up to the names of the loop variables"""
    if not t.fv:
        return t.fp
    vs = sorted((f[1] for f in t.fv if f[0] == "b"), reverse=True)
    return T.subst(t, {T.bd(v): T.raw("param", "loop%d" % i) for i, v in enumerate(vs)}).fp


def steering(terms, known=()):
    """decisions the terms make that the known ones do not, each as the decision path that leads to it, with an outcome
    a random interpretation rarely has; decisions about loop elements are made for arbitrary elements"""
    own, seen = {}, set()
    st = [x for x in known]
    while st:
        x = st.pop()
        if isinstance(x, Term) and x.fp not in seen:
            seen.add(x.fp)
            if x.op == "ite":
                own[alpha(x.args[0])] = 1
            st.extend(T._children(x.args))
    old, seen, out = set(own), set(), []
    done = set()
    st = [(x, ()) for x in terms]
    while st:
        x, p = st.pop()
        if not isinstance(x, Term) or x.fp in seen:
            continue
        seen.add(x.fp)
        if x.op != "ite":
            st.extend((c, ()) for c in T._children(x.args))
            continue
        a = x.args[0]
        st.append((a, ()))
        h = alpha(a)
        if h not in old:
            for v in (True, False) if a.op != "eq0" else (True,):
                if (h, v) not in done and x.args[1 if v else 2].op != "panic":
                    done.add((h, v))
                    out.append(p[-6:] + ((a, v),))
        st.append((x.args[2], p + ((a, False),)))
        st.append((x.args[1], p + ((a, True),)))
    return out


def rare(aim):
    """does the path end in an equality of values (as opposed to sizes and positions)?"""
    a, v = aim[-1]
    return v and a.op == "eq0" and any(not isint(x) for m, _ in T.R(a.args[0]).items() for x, e in m)


def aim_at(E, aim, rnd):
    """try to choose the interpretation so that the decisions of a path are made"""
    b = {}
    m = rnd.choice([1, 2, 3])
    for a, _ in aim:
        for f in a.fv:
            b.setdefault(f[1], rnd.randrange(m))
    for a, v in aim:
        E.steps = 0
        try:
            force(E, a, v, b, rnd)
        except (Und, Oob):
            pass


def decide(conjs, skip, term, want, n=40, seed=1, budget=20.0, soft=(), rank=None, choices=None, panics=False, aims=None):
    """under interpretations that satisfy every condition but number skip (None: all of them), the term has the wanted truth value"""
    t0 = time.time()
    REL[0] = 0
    rnd = random.Random(seed)
    done = und = 0
    reason = ""
    atoms = steering([term], conjs) if aims is None else list(aims)
    if os.environ.get("VERIF_AIMS"):
        print("%d aims, %d rare" % (len(atoms), sum(map(rare, atoms))))
    rnd.shuffle(atoms)
    atoms.sort(key=rare, reverse=True)
    atoms = [a for a in atoms if rare(a)] * 2 + atoms
    n += 6 * len(atoms)
    for i in range(n):
        if time.time() - t0 > budget:
            break
        E = Env((seed, i), [1, 2, 2, 3] if i % 4 != 1 else [1, 1, 2])
        E.choices = choices or {}
        if i % 16 in (6, 13):
            E.pool = [0, 0, 1, M - 1, rnd.randrange(M)]
        E.deadline = t0 + budget
        # every other interpretation aims at one of the decisions the term itself makes
        aim = [atoms[(i // 2) % len(atoms)]] if atoms and i % 2 else []
        if aim and i // 2 >= len(atoms):
            aim.append(rnd.choice(atoms))
        try:
            # half of the time the condition to break holds everywhere before it is broken in one place
            whole = skip is not None and i % 8 >= 4
            for rnd_no in range(3 if whole else 2):
                E.rank = {}
                for g in aim:
                    aim_at(E, g, rnd)
                for j, c in enumerate(conjs):
                    E.steps = 0
                    E.rank = (rnd.choice(rank[j]) if isinstance(rank[j], list) else rank[j]) if rank else {}
                    if j != skip or whole and not rnd_no:
                        force_cond(E, c, True, {}, rnd)
                    elif E.bool(c):
                        if aim and i % 4 == 1:
                            E.rank = {}
                        force_cond(E, c, False, {}, rnd)
                E.steps = 0
                bad = [j for j, c in enumerate(conjs) if E.bool(c) != (j != skip)]
                if not bad:
                    break
            if bad:
                reason = "conditions %s not established" % bad
                continue
            v = outcome(E, term, soft)
        except Late:
            reason = reason or "time"
            break
        except Und as e:
            und += 1
            reason = str(e)
            continue
        except RecursionError:
            und += 1
            continue
        done += 1
        if v == PANIC:
            got = False if panics else "panic"
        elif isinstance(v, tuple) and v and v[0] == "adt":
            got = v[2] in ("Ok", "Some")
        else:
            got = v
        if got != want:
            return Cmp("differ", done, done, und, witness=(got, describe(E, term)))
    if not done:
        return Cmp("undecided", 0, 0, und, reason=reason)
    return Cmp("agree", done, done, und, reason=reason)
