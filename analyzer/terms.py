"""Value-graph domain: interned terms with random-interpretation fingerprints.

Terms are interned by a fingerprint: ring operations are interpreted in a large prime field, everything
else is a hash of its children (Gulwani/Necula-style random interpretation for global value numbering), so
two terms equal modulo commutative-ring axioms, field inverses and congruence are the same object.
Conditions and gated values are canonical (multi-terminal) decision diagrams over atoms.
"""
import hashlib
import os
from fractions import Fraction
import sys

sys.setrecursionlimit(200000)
P = (1 << 255) - 19
SEED = os.environ.get("VERIF_SEED", "1").encode()


def H(*parts):
    h = hashlib.blake2b(SEED, digest_size=32)
    for p in parts:
        s = p if isinstance(p, bytes) else str(p).encode()
        h.update(len(s).to_bytes(8, "little"))
        h.update(s)
    return int.from_bytes(h.digest(), "little") % P


class Term:
    __slots__ = ("op", "args", "fp", "fv", "h", "opq", "ty", "order", "_h2")

    def __repr__(self):
        return show(self)


TABLE = {}
EMPTY = frozenset()


def _afp(a):
    if isinstance(a, Term):
        return b"t%d" % a.fp
    if isinstance(a, tuple):
        return b"(" + b",".join(_afp(x) for x in a) + b")"
    return ("s" + repr(a)).encode()


def _children(args):
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _children(a)


OPAQUE_OPS = {"opq"}


def intern(op, args, fp, fv=None, h=None, opq=None):
    t = TABLE.get(fp)
    if t is not None:
        return t
    t = Term()
    t.op, t.args, t.fp = op, args, fp
    if fv is None:
        s = set()
        hh = 0
        o = op in OPAQUE_OPS
        for c in _children(args):
            s |= c.fv
            if c.h > hh:
                hh = c.h
            o = o or c.opq
        t.fv = frozenset(s) if s else EMPTY
        t.h = hh
        t.opq = o
    else:
        t.fv, t.h, t.opq = fv, h, opq
    t.ty = None
    t.order = None
    t._h2 = None
    TABLE[fp] = t
    return t


def raw(op, *args):
    """Uninterpreted application (no lifting)."""
    return intern(op, args, H(op, *[_afp(a) for a in args]))


# --------------------------------------------------------------- numbers / ring
def num(c):
    if not isinstance(c, Fraction):
        c = Fraction(c)
    if c.denominator == 1:
        fp = c.numerator % P
    else:
        fp = c.numerator % P * pow(c.denominator, P - 2, P) % P
    return intern("num", (c,), fp, EMPTY, 0, False)


ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.op == "num"


def R(t):
    """term -> dict monomial -> coefficient"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "ring":
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = {}
    for x, e in a:
        d[x] = e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].fp))


def from_R(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    fp = 0
    for m, c in d.items():
        v = c.numerator % P
        if c.denominator != 1:
            v = v * pow(c.denominator, P - 2, P) % P
        for x, e in m:
            v = v * pow(x.fp, e, P) % P
        fp += v
    fp %= P
    t = TABLE.get(fp)
    if t is not None:
        return t
    items = tuple(sorted(d.items(), key=lambda it: tuple((x.fp, e) for x, e in it[0])))
    s = set()
    hh = 0
    o = False
    for m, c in items:
        for x, e in m:
            s |= x.fv
            hh = max(hh, x.h)
            o = o or x.opq
    return intern("ring", (items,), fp, frozenset(s), hh, o)


def _add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    d = R(a)
    for m, c in R(b).items():
        d[m] = d.get(m, 0) + c
    return from_R(d)


def _neg(a):
    return from_R({m: -c for m, c in R(a).items()})


BIG = 150   # products with more monomials than this stay factored


def bigmul(a, b):
    """an unexpanded product: same fingerprint as the expanded one, hence the same value number"""
    fp = a.fp * b.fp % P
    x, y = (a, b) if a.fp < b.fp else (b, a)
    return intern("bigmul", (x, y), fp, x.fv | y.fv, max(x.h, y.h), x.opq or y.opq)


def _mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    d = {}
    ra, rb = R(a), R(b)
    if len(ra) * len(rb) > BIG and len(ra) > 1 and len(rb) > 1:
        return bigmul(a, b)
    for m, c in ra.items():
        for n, e in rb.items():
            k = _mono_mul(m, n)
            d[k] = d.get(k, 0) + c * e
    return from_R(d)


def _inv(a):
    if a is ZERO:
        return raw("opq", "inv0")
    if is_num(a):
        return num(1 / a.args[0])
    r = R(a)
    if len(r) == 1:
        (m, c), = r.items()
        return from_R({tuple((x, -e) for x, e in m): 1 / c})
    # normalise leading coefficient
    lead = r[min(r, key=lambda m: tuple((x.fp, e) for x, e in m))]
    b = from_R({m: c / lead for m, c in r.items()})
    fp = pow(b.fp, P - 2, P)
    t = intern("inv", (b,), fp, b.fv, b.h, b.opq)
    return _mul(t, num(1 / lead)) if lead != 1 else t


def _pow(b, e):
    """b^e with e an integer term"""
    if is_num(e):
        n = int(e.args[0])
        if n == 0:
            return ONE
        if n < 0:
            return _inv(_pow(b, num(-n)))
        r = R(b)
        if len(r) <= 1 or n <= 6:
            if len(r) == 1:
                (m, c), = r.items()
                if m:
                    return from_R({tuple((x, k * n) for x, k in m): c ** n})
            out = ONE
            for _ in range(n):
                out = _mul(out, b)
            return out
        return raw("pow", b, e)
    if b is ONE:
        return ONE
    # split exponent into constant part and symbolic monomials
    out = ONE
    for m, c in R(e).items():
        if not m:
            if c.denominator == 1:
                out = _mul(out, _pow(b, num(c)))
            else:
                return raw("pow", b, e)
        else:
            if c.denominator != 1:
                return raw("pow", b, e)
            base = from_R({m: Fraction(1)})
            out = _mul(out, _pow(_pow_atom(b, base), num(c)))
    return out


def _pow_atom(b, e):
    r = R(b)
    if len(r) == 1:
        (m, c), = r.items()
        out = ONE
        if c != 1:
            out = raw("pow", num(c), e)
        for x, k in m:
            if x.op == "pow":
                y = _pow(x.args[0], _mul(x.args[1], e))
            else:
                y = raw("pow", x, e)
            out = _mul(out, _pow(y, num(k)))
        return out
    return raw("pow", b, e)


# --------------------------------------------------------------- decision diagrams
TRUE = raw("true")
FALSE = raw("false")
_order = [0]


def atom_order(a):
    if a.order is None:
        _order[0] += 1
        a.order = _order[0]
    return a.order


def is_ite(t):
    return t.op == "ite"


def top(t):
    return atom_order(t.args[0]) if t.op == "ite" else 1 << 60


NODE = {}


def single_eq(atom):
    """eq0 atom as (x, rest): x is an atom with coefficient +-1 that equals rest."""
    out = []
    if atom.op == "eq0":
        r = R(atom.args[0])
        for m, c in r.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                x = m[0][0]
                rest = {k: -v / c for k, v in r.items() if k != m}
                rt = from_R(rest)
                if not contains(rt, x):
                    out.append((x, rt))
    return out


def mknode(atom, hi, lo):
    if hi is lo:
        return hi
    key = (atom.fp, hi.fp, lo.fp)
    t = NODE.get(key)
    if t is not None:
        return t
    t = _mknode(atom, hi, lo)
    NODE[key] = t
    return t


def _mknode(atom, hi, lo):
    # same-shape structures: push the choice into the components
    if hi.op == lo.op:
        if hi.op == "adt" and hi.args[0] == lo.args[0] and hi.args[1] == lo.args[1] and len(hi.args[2]) == len(lo.args[2]):
            return raw("adt", hi.args[0], hi.args[1], tuple((n, _ite_atom(atom, a, b)) for (n, a), (_, b) in zip(hi.args[2], lo.args[2])))
        if hi.op == "tuple" and len(hi.args) == len(lo.args):
            return raw("tuple", *[_ite_atom(atom, a, b) for a, b in zip(hi.args, lo.args)])
        if hi.op == "lit" and len(hi.args) == len(lo.args):
            return raw("lit", *[_ite_atom(atom, a, b) for a, b in zip(hi.args, lo.args)])
        if hi.op == "map" and [k for k, _ in hi.args[0]] == [k for k, _ in lo.args[0]]:
            return raw("map", tuple((k, _ite_atom(atom, a, b)) for (k, a), (_, b) in zip(hi.args[0], lo.args[0])))
        if hi.op == "upd" and hi.args[0] is lo.args[0] and hi.args[1] is lo.args[1]:
            return raw("upd", hi.args[0], hi.args[1], _ite_atom(atom, hi.args[2], lo.args[2]))
        if hi.op == "rng" and hi.args[0] is lo.args[0]:
            return raw("rng", hi.args[0], _ite_atom(atom, hi.args[1], lo.args[1]))
    if hi.op == "upd" and hi.args[0] is lo:
        return raw("upd", lo, hi.args[1], _ite_atom(atom, hi.args[2], idx(lo, hi.args[1])))
    if lo.op == "upd" and lo.args[0] is hi:
        return raw("upd", hi, lo.args[1], _ite_atom(atom, idx(hi, lo.args[1]), lo.args[2]))
    # x == c ? e[x:=c] : e   is  e
    if atom.op == "eq0" and lo.op not in ("true", "false") and not (lo.op == "ite"):
        for x, c in single_eq(atom):
            if contains(lo, x):
                try:
                    if subst(lo, {x: c}) is hi:
                        return lo
                except (RecursionError, MemoryError):
                    raise
                except Exception:
                    pass
    x = H("guard", atom.fp)
    fp = (x * hi.fp + (1 - x) * lo.fp) % P
    return intern("ite", (atom, hi, lo), fp, atom.fv | hi.fv | lo.fv, max(atom.h, hi.h, lo.h), atom.opq or hi.opq or lo.opq)


def _ite_atom(atom, hi, lo):
    return ite(mknode(atom, TRUE, FALSE), hi, lo)


def cof(t, a, v):
    """cofactor of t w.r.t. atom a when a is t's top"""
    if t.op == "ite" and t.args[0] is a:
        return t.args[1] if v else t.args[2]
    return t


ITE = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.fp, a.fp, b.fp)
    r = ITE.get(k)
    if r is not None:
        return r
    cands = [x.args[0] for x in (c, a, b) if x.op == "ite"]
    at = min(cands, key=atom_order)
    hi = ite(cof(c, at, 1), cof(a, at, 1), cof(b, at, 1))
    lo = ite(cof(c, at, 0), cof(a, at, 0), cof(b, at, 0))
    r = mknode(at, hi, lo)
    ITE[k] = r
    return r


def lit(atom):
    return mknode(atom, TRUE, FALSE)


def Not(a):
    return ite(a, FALSE, TRUE)


def And(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def Iff(a, b):
    return ite(a, b, Not(b))


def is_boolish(t):
    while t.op == "ite":
        t = t.args[1]
    return t is TRUE or t is FALSE


def restrict(t, c):
    """simplify t under the assumption c (c a BDD): constrain single literals implied by c"""
    for a, v in implied(c):
        t = assume(t, a, v)
    return t


def implied(c):
    """literals implied by boolean c"""
    out = []
    if c.op != "ite":
        return out
    for a in support(c):
        pos = ite(c, lit(a), TRUE)
        if pos is TRUE:
            out.append((a, True))
        elif ite(c, Not(lit(a)), TRUE) is TRUE:
            out.append((a, False))
    return out


def support(t):
    s = {}
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x.op != "ite" or x.fp in seen:
            continue
        seen.add(x.fp)
        s[x.args[0]] = 1
        st.append(x.args[1])
        st.append(x.args[2])
    return sorted(s, key=atom_order)


def assume(t, a, v):
    if t.op != "ite":
        return t
    if t.args[0] is a:
        return t.args[1] if v else t.args[2]
    if atom_order(t.args[0]) > atom_order(a):
        return t
    return mknode(t.args[0], assume(t.args[1], a, v), assume(t.args[2], a, v))


def lift(f, *args):
    """apply f to the leaves of gated arguments"""
    best = None
    for a in args:
        if isinstance(a, Term) and a.op == "ite":
            o = a.args[0]
            if best is None or atom_order(o) < atom_order(best):
                best = o
    if best is None:
        return f(*args)
    hi = lift(f, *[cof(a, best, 1) if isinstance(a, Term) else a for a in args])
    lo = lift(f, *[cof(a, best, 0) if isinstance(a, Term) else a for a in args])
    return _ite_atom(best, hi, lo)


def leaves(t, out=None):
    if out is None:
        out = []
    if t.op == "ite":
        leaves(t.args[1], out)
        leaves(t.args[2], out)
    else:
        out.append(t)
    return out


def add(a, b):
    return lift(_add, a, b)


def neg(a):
    return lift(_neg, a)


def sub(a, b):
    return lift(lambda x, y: _add(x, _neg(y)), a, b)


def mul(a, b):
    return lift(_mul, a, b)


def inv(a):
    return lift(_inv, a)


def div(a, b):
    return lift(lambda x, y: _mul(x, _inv(y)), a, b)


def power(b, e):
    return lift(_pow, b, e)


def uf(op, *args):
    """uninterpreted function with lifting over gated Term arguments"""
    return lift(lambda *a: raw(op, *a), *args)


# --------------------------------------------------------------- integer facts
FACTS = []  # terms known to be >= 0


NONNEG_OPS = {"len", "clen", "idiv", "mod", "bv", "bd", "min", "max0", "ilog2", "npow2", "dsize", "first", "firstx", "usz", "count", "pdeg", "nlimbs", "limb", "leint"}


def pos_atom(x):
    """integer atoms that are at least one"""
    return x.op == "npow2" or (x.op == "pow" and is_num(x.args[0]) and x.args[0].args[0] >= 1)


def nonneg_atom(x):
    if x.op in NONNEG_OPS:
        return True
    if x.op == "pow" and is_num(x.args[0]) and x.args[0].args[0] > 0:
        return True
    if x.op == "ring":
        return False
    t = x.ty
    return bool(t) and t.get("k") == "uint"


def _triv(d):
    r = R(d)
    c0 = r.get((), 0)
    if c0 < 0:
        # atoms >= 1 absorb a negative constant
        k = sum(c for m, c in r.items() if c > 0 and m and all(pos_atom(x) and e > 0 for x, e in m))
        if c0 + k < 0:
            return False
        r.pop(())
    for m, c in r.items():
        if c < 0:
            return False
        for x, e in m:
            if not nonneg_atom(x):
                return False
    return True


def trivially_nonneg(d, depth=0):
    if _triv(d):
        return True
    if depth >= 2:
        return False
    # max0(y) >= y,  min(a, b, ..) <= a, b, ..
    for m, c in R(d).items():
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            if x.op == "max0" and c > 0 and not is_ite(x.args[0]):
                if trivially_nonneg(_add(d, _mul(num(c), _add(x.args[0], _neg(x)))), depth + 1):
                    return True
            if x.op == "min" and c < 0:
                for y in x.args:
                    if trivially_nonneg(_add(d, _mul(num(c), _add(y, _neg(x)))), depth + 1):
                        return True
            if x.op == "npow2" and c > 0:
                if trivially_nonneg(_add(d, _mul(num(c), _add(x.args[0], _neg(x)))), depth + 1):
                    return True
            if x.op == "mod" and c < 0:
                if trivially_nonneg(_add(d, _mul(num(c), _add(_add(x.args[1], num(-1)), _neg(x)))), depth + 1):
                    return True
    return False


def _ge0(d):
    if is_num(d):
        return TRUE if d.args[0] >= 0 else FALSE
    if known_nonneg(d):
        return TRUE
    nd = _add(_neg(d), num(-1))  # -d-1 >= 0  <=> d < 0
    if known_nonneg(nd):
        return FALSE
    d1 = _add(d, ONE)
    if known_nonneg(d1):
        return Not(_eq0(d1))
    nd1 = _neg(d)  # d <= 0
    if known_nonneg(nd1):
        return _eq0(d)
    # canonical polarity
    if d.fp < nd.fp:
        return lit(raw("ge0", d))
    return Not(lit(raw("ge0", nd)))


_NN = {}          # (d, facts) -> answer
_ATOMS = {}


def atoms_of(d):
    a = _ATOMS.get(d)
    if a is None:
        a = frozenset(x for m in R(d) for x, e in m)
        ext = set(a)
        for x in a:
            # arguments of the operators trivially_nonneg can open
            if x.op in ("max0", "npow2") and not is_ite(x.args[0]):
                ext |= atoms_of(x.args[0])
            elif x.op == "min":
                for y in x.args:
                    ext |= atoms_of(y)
            elif x.op == "mod":
                ext |= atoms_of(x.args[1])
        a = _ATOMS[d] = frozenset(ext)
    return a


FIELDISH = {"rand", "peval", "proj", "X", "root", "inv", "fromcoeffs", "generator", "sum", "prod"}


def known_nonneg(d):
    if trivially_nonneg(d):
        return True
    if not FACTS:
        return False
    key = (d, tuple(FACTS))
    v = _NN.get(key)
    if v is None:
        v = _NN[key] = _known_nonneg(d)
    return v


def _known_nonneg(d):
    da = atoms_of(d)
    seen = []
    for f in FACTS:
        if f is d:
            return True
        if f in seen or not f.op == "ring" and not is_num(f) and f not in da:
            if f in seen or not (atoms_of(f) & da):
                continue
        seen.append(f)
    for f in seen:
        fa = atoms_of(f)
        if not (fa & da):
            continue
        df = _add(d, _neg(f))
        if trivially_nonneg(df):
            return True
        if not all(nonneg_atom(x) or x.op in ("bv",) or (x.ty or {}).get("k") in ("uint", "int") for x in da):
            continue
        ra = atoms_of(df)
        for g in seen:
            if g is not f and (atoms_of(g) & ra) and trivially_nonneg(_add(df, _neg(g))):
                return True
    return False


def _eq0(d):
    if d.fp == 0:
        return TRUE
    if is_num(d):
        return FALSE
    r = R(d)
    if len(r) == 1:
        (m, c), = r.items()
        if all(x.op in ("root", "pow") and nonzero_atom(x) for x, e in m):
            return FALSE
    # a polynomial whose leading power of X has a numeric coefficient is not zero
    tops = [(sum(e for x, e in m if x is X), m) for m in r]
    dt = max(e for e, m in tops)
    if dt > 0:
        tm = [m for e, m in tops if e == dt]
        if len(tm) == 1 and all(x is X for x, e in tm[0]) and scalar_poly(d):
            return FALSE
    # integers: strictly positive / negative
    if all(nonneg_atom(x) or x.op == "bv" for m in r for x, e in m) or FACTS:
        if known_nonneg(_add(d, num(-1))) or known_nonneg(_add(_neg(d), num(-1))):
            return FALSE
    # clear denominators
    neg_ = {}
    for m in r:
        for x, e in m:
            if e < 0:
                neg_[x] = min(neg_.get(x, 0), e)
    for _ in range(4):
        r = R(d)
        invs = {}
        for m in r:
            for x, e in m:
                if e < 0:
                    invs[x] = max(invs.get(x, 0), -e)
                if x.op == "inv" and e > 0:
                    invs[x] = max(invs.get(x, 0), e)
        if not invs:
            break
        # multiply monomial-wise so inverses cancel structurally
        nd = ZERO
        for m, c in r.items():
            dd = dict(m)
            t = num(c)
            fac = []
            for x, e in invs.items():
                if x.op == "inv" and (dd.get(x, 0) > 0 or x in dd):
                    k = dd.pop(x)
                    fac.append(_pow(x.args[0], num(e - k)))
                elif x.op == "inv":
                    fac.append(_pow(x.args[0], num(e)))
                else:
                    k = dd.get(x, 0) + e
                    if k:
                        dd[x] = k
                    else:
                        dd.pop(x, None)
            mm = tuple(sorted(dd.items(), key=lambda p: p[0].fp))
            t = from_R({mm: c})
            for f in fac:
                t = _mul(t, f)
            nd = _add(nd, t)
        d = nd
    # strip common monomial factors known to be nonzero
    r = R(d)
    if not r:
        return TRUE
    common = None
    for m in r:
        s = {x: e for x, e in m if nonzero_atom(x)}
        common = s if common is None else {x: min(e, s[x]) for x, e in common.items() if x in s}
    if common:
        d = from_R({tuple((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0)): c for m, c in r.items()})
        r = R(d)
        if is_num(d):
            return TRUE if d is ZERO else FALSE
    lead = r[min(r, key=lambda m: tuple((x.fp, e) for x, e in m))]
    d = from_R({m: c / lead for m, c in r.items()})
    return lit(raw("eq0", d))


def nonzero_atom(x):
    if x.op == "root" or x.op == "generator":
        return True
    if x.op == "pow":
        return nonzero_atom(x.args[0]) or (is_num(x.args[0]) and x.args[0].args[0] != 0)
    return False


def ge0(d):
    return lift(_ge0, d)


def ge(a, b):
    return ge0(sub(a, b))


def lt(a, b):
    return Not(ge(a, b))


CONST_OPS = {"str", "char", "bytes", "fn"}


def _eq(a, b):
    if a is b:
        return TRUE
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if a in (TRUE, FALSE) and b in (TRUE, FALSE):
            return FALSE
        return lit(raw("eqb", *sorted((a, b), key=lambda t: t.fp)))
    if a.op == "adt" and b.op == "adt":
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        db = dict(b.args[2])
        for n, v in a.args[2]:
            if n not in db:
                return lit(raw("eqx", a, b))
            r = And(r, eq(v, db[n]))
        return r
    if a.op == "adt" or b.op == "adt":
        s, o = (a, b) if a.op == "adt" else (b, a)
        r = isvariant(o, s.args[0], s.args[1]) if s.args[1] is not None else TRUE
        for n, v in s.args[2]:
            r = And(r, eq(v, proj(o, s.args[0], s.args[1], n)))
        return r
    if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
        return And(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if is_seq(a) or is_seq(b):
        return seq_eq(a, b)
    if a.op in CONST_OPS and b.op in CONST_OPS:
        return FALSE
    return _eq0(_add(a, _neg(b)))


def eq(a, b):
    if is_boolish(a) and is_boolish(b):
        return Iff(a, b)
    return lift(_eq, a, b)


# --------------------------------------------------------------- variants / structs
def adt(path, variant, fields):
    """fields: list of (name, value)"""
    return raw("adt", path, variant, tuple(fields))


ADTS = {}  # path -> {"enum":bool,"v":[{n,f:[[name,ty,pub]]}]}


def same_variant(a, b):
    """Some/Ok and None/Err: the success and the failure of a value whose type was not known where it was tested"""
    return a == b or (a, b) in (("Some", "Ok"), ("Ok", "Some"), ("None", "Err"), ("Err", "None"))


def _isvariant(v, path, variant):
    if v.op == "adt":
        return TRUE if same_variant(v.args[1], variant) else FALSE
    # Option/Result two-variant canonical polarity
    if variant == "None":
        return Not(lit(raw("isv", v, "Some")))
    if variant == "Err":
        return Not(lit(raw("isv", v, "Ok")))
    if variant == "Break":
        return Not(lit(raw("isv", v, "Continue")))
    a = ADTS.get(path)
    if a and a["enum"] and len(a["v"]) == 2 and a["v"][1]["n"] == variant:
        return Not(lit(raw("isv", v, a["v"][0]["n"])))
    if a and a["enum"] and len(a["v"]) == 1:
        return TRUE
    return lit(raw("isv", v, variant))


def isvariant(v, path, variant):
    return lift(lambda x: _isvariant(x, path, variant), v)


def _proj(v, path, variant, field):
    if v.op == "adt":
        for n, x in v.args[2]:
            if n == field:
                return x
        return raw("opq", "badproj", v, variant or "", field)
    if v.op == "tuple":
        return v.args[int(field)]
    if v.op == "poly_struct":
        pass
    return raw("proj", v, variant or "", field)


def proj(v, path, variant, field):
    return lift(lambda x: _proj(x, path, variant, field), v)


def some(v):
    return adt("Option", "Some", [("0", v)])


NONE = adt("Option", "None", [])
UNIT = raw("tuple")
ERR = adt("Result", "Err", [("0", UNIT)])


def ok(v):
    return adt("Result", "Ok", [("0", v)])


def err(v=None):
    return ERR


# --------------------------------------------------------------- binders
_fresh = [0]


def fresh(kind="bv", ty=None):
    _fresh[0] += 1
    i = _fresh[0]
    t = intern(kind, (i,), H(kind, i), frozenset([(kind, i)]), 0, False)
    t.ty = ty
    return t


def bd(h, poly=False):
    """bound variable of the binder at height h; one standing for a polynomial is a distinct term"""
    if poly:
        return intern("bd", (h, "p"), H("bd", h, "p"), frozenset([("b", h), ("b", h, "p")]), 0, False)
    return intern("bd", (h,), H("bd", h), frozenset([("b", h)]), 0, False)


POLY_TY = {"k": "adt", "p": "ark_poly::univariate::DensePolynomial", "s": "poly", "aa": []}


def lam(var, body):
    h = body.h + 1
    b = subst(body, {var: bd(h, is_poly_ty(var.ty))})
    # substitution can only rename; height is unchanged
    return intern("lam", (h, b), H("lam", h, _afp(b)), frozenset(x for x in b.fv if x[:2] != ("b", h)), max(h, b.h), b.opq)


def app(l, t):
    h, b = l.args
    if ("b", h, "p") in b.fv:
        if t.op in ("bv", "phi") and t.ty is None:
            t.ty = POLY_TY
        return subst(b, {bd(h): t, bd(h, True): t})
    return subst(b, {bd(h): t})


def contains(t, x):
    """x an atom term"""
    if x.op in ("bv", "phi", "bd"):
        key = ("b", x.args[0]) if x.op == "bd" else (x.op, x.args[0])
        return key in t.fv
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y.fp in seen:
            continue
        seen.add(y.fp)
        if y.op == "ring":
            for m, c in y.args[0]:
                for a, e in m:
                    st.append(a)
        else:
            st.extend(_children(y.args))
    return False


def contains_any(t, xs):
    return any(contains(t, x) for x in xs)


CONS = {}  # op -> constructor(args)


def subst(t, mp, memo=None):
    if not mp:
        return t
    if memo is None:
        memo = {}
        keys = set()
        allv = True
        for k in mp:
            if k.op in ("bv", "phi"):
                keys.add((k.op, k.args[0]))
            elif k.op == "bd":
                keys.add(("b", k.args[0]))
            else:
                allv = False
        memo["keys"] = frozenset(keys) if allv else None
    return _subst(t, mp, memo)


def _subst(t, mp, memo):
    r = mp.get(t)
    if r is not None:
        return r
    ks = memo["keys"]
    if ks is not None and not (ks & t.fv):
        return t
    r = memo.get(t.fp)
    if r is not None:
        return r
    r = _subst1(t, mp, memo)
    memo[t.fp] = r
    return r


def _sub_arg(a, mp, memo):
    if isinstance(a, Term):
        return _subst(a, mp, memo)
    if isinstance(a, tuple):
        return tuple(_sub_arg(x, mp, memo) for x in a)
    return a


def _subst1(t, mp, memo):
    if t.op in ("num", "true", "false", "bv", "phi", "bd"):
        return t
    if t.op == "ring":
        out = ZERO
        changed = False
        parts = []
        for m, c in t.args[0]:
            nm = []
            ch = False
            for x, e in m:
                y = _subst(x, mp, memo)
                if y is not x:
                    ch = True
                nm.append((y, e))
            changed = changed or ch
            parts.append((nm, c, ch, m))
        if not changed:
            return t
        d = {}
        acc = []
        for nm, c, ch, m in parts:
            if not ch:
                d[m] = d.get(m, 0) + c
            else:
                v = num(c)
                for y, e in nm:
                    v = mul(v, power(y, num(e)) if e > 0 else inv(power(y, num(-e))))
                acc.append(v)
        out = from_R(d)
        for v in acc:
            out = add(out, v)
        return out
    if t.op == "ite":
        a, hi, lo = t.args
        c = _subst_atom(a, mp, memo)
        return ite(c, _subst(hi, mp, memo), _subst(lo, mp, memo))
    if t.op == "lam":
        h, b = t.args
        v = fresh()
        body = app(t, v)
        return lam(v, _subst(body, mp, memo))
    args = tuple(_sub_arg(a, mp, memo) for a in t.args)
    if all(x is y or x == y for x, y in zip(args, t.args)):
        return t
    n = rebuild(t.op, args)
    if n.ty is None and t.ty is not None:
        n.ty = t.ty
    return n


def _subst_atom(a, mp, memo):
    n = _subst(a, mp, memo)
    if n is a:
        return lit(a)
    if is_boolish(n):
        return n
    return lit(n)


def rebuild(op, args):
    c = CONS.get(op)
    if c:
        return c(*args)
    terms = [i for i, a in enumerate(args) if isinstance(a, Term)]
    if any(args[i].op == "ite" for i in terms) and op not in ("adt", "tuple", "lit", "lam"):
        return uf(op, *args)
    return raw(op, *args)


def reg(op):
    def d(f):
        CONS[op] = f
        return f
    return d


CONS["eq0"] = lambda d: lift(_eq0, d)
CONS["ge0"] = lambda d: lift(_ge0, d)
CONS["eqb"] = eq
CONS["inv"] = inv
CONS["bigmul"] = mul
CONS["pow"] = power
CONS["isv"] = lambda v, n: isvariant(v, None, n)
CONS["proj"] = lambda v, va, f: proj(v, None, va or None, f)


# --------------------------------------------------------------- int helpers
def imin(a, b):
    def f(x, y):
        if x is y:
            return x
        if known_nonneg(_add(y, _neg(x))):
            return x
        if known_nonneg(_add(x, _neg(y))):
            return y
        xs = set(x.args if x.op == "min" else (x,)) | set(y.args if y.op == "min" else (y,))
        if len(xs) == 1:
            return x
        return raw("min", *sorted(xs, key=lambda t: t.fp))
    return lift(f, a, b)


CONS["min"] = lambda *xs: _fold(imin, xs)


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def max0(d):
    def f(x):
        if is_num(x):
            return x if x.args[0] >= 0 else ZERO
        if known_nonneg(x):
            return x
        if known_nonneg(_neg(x)):
            return ZERO
        return raw("max0", x)
    return lift(f, d)


CONS["max0"] = max0


def idiv(a, b):
    def f(x, y):
        if is_num(x) and is_num(y) and y.args[0]:
            return num(int(x.args[0]) // int(y.args[0]))
        if y is ONE:
            return x
        if is_num(y) and y.args[0] > 0:
            n = y.args[0]
            r = R(x)
            if r and all(c.denominator == 1 and int(c) % int(n) == 0 for c in r.values()):
                return from_R({m: c / n for m, c in r.items()})
            if x.op == "idiv" and is_num(x.args[1]):
                return idiv(x.args[0], num(x.args[1].args[0] * n))
        return raw("idiv", x, y)
    return lift(f, a, b)


CONS["idiv"] = idiv


def mod(a, b):
    def f(x, y):
        if is_num(x) and is_num(y) and y.args[0]:
            return num(int(x.args[0]) % int(y.args[0]))
        if y is ONE:
            return ZERO
        # (a mod m) mod m
        if x.op == "mod" and x.args[1] is y:
            return x
        # drop multiples of y; (u mod y) + v == u + v  (mod y)
        r = R(x)
        d = {}
        ch = False
        iy = {m: c for m, c in R(y).items()}
        if len(iy) == 1:
            (my, cy), = iy.items()
            for m, c in r.items():
                if m == my and cy == 1 and c.denominator == 1:
                    ch = True
                    continue
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and m[0][0].args[1] is y:
                    for k, v in R(m[0][0].args[0]).items():
                        d[k] = d.get(k, 0) + v * c
                    ch = True
                    continue
                d[m] = d.get(m, 0) + c
            if ch:
                return f(from_R(d), y)
        if is_num(y) and y.args[0] > 0:
            n = int(y.args[0])
            d = {m: (Fraction(int(c) % n) if c.denominator == 1 else c) for m, c in r.items()}
            if d != r:
                return f(from_R(d), y)
        return raw("mod", x, y)
    return lift(f, a, b)


CONS["mod"] = mod

# --------------------------------------------------------------- sequences
SEQ_OPS = {"lit", "tab", "cat", "upd", "filt", "flat", "coeffs", "slice", "rotl", "hash", "serbytes", "lebytes", "tostr", "dbgstr",
           "rev", "dedup", "sorted", "split", "strfn", "bigint"}
BYTE_OPS = {"hash", "serbytes", "lebytes", "tostr", "dbgstr"}


def kindtag(ty):
    return "" if ty is None else "p" if is_poly_ty(ty) else "s" if is_seq_ty(ty) else ""


def is_seq(t):
    return t.op in SEQ_OPS or (t.ty is not None and is_seq_ty(t.ty))


def is_seq_ty(ty):
    k = ty.get("k")
    if k in ("slice", "array"):
        return True
    if k == "adt":
        return ty["p"].split("::")[-1] in ("Vec", "String", "VecDeque")
    return k == "str"


def seqop(op, s):
    r = raw(op, s)
    r.ty = s.ty or {"k": "slice", "tt": elem_ty(s.ty) if s.ty else None, "s": "seq"}
    return r


def seqlit(xs):
    return raw("lit", *xs)


def length(s):
    def f(x):
        o = x.op
        if o == "lit":
            return num(len(x.args))
        if o == "tab":
            return x.args[0]
        if o == "cat":
            r = ZERO
            for y in x.args:
                r = add(r, length(y))
            return r
        if o == "upd":
            return length(x.args[0])
        if o == "coeffs":
            return clen(x.args[0])
        if o == "hash":
            return num(32)
        if o == "bigint":
            return add(ONE, raw("nlimbs"))
        if o == "rev":
            return length(x.args[0])
        if o == "lebytes":
            return num(x.args[1])
        if o == "flat":
            return summ(x.args[0], lambda k: length(app(x.args[1], k)))
        if o == "slice":
            return max0(sub(x.args[2], x.args[1]))
        if o == "rotl":
            return length(x.args[0])
        if o == "filt":
            return raw("count", x.args[0], x.args[1])
        if x.ty is not None and x.ty.get("k") == "array":
            n = x.ty.get("nv")
            if n is not None:
                return n
        if o == "fold":
            pass
        return raw("len", x)
    return lift(f, s)


CONS["len"] = length


def idx(s, i):
    def f(x, j):
        o = x.op
        if o == "lit":
            if is_num(j):
                k = int(j.args[0])
                if 0 <= k < len(x.args):
                    return x.args[k]
                return raw("opq", "oob", x, j)
            if len(x.args) == 1:
                return x.args[0]
            return raw("idx", x, j)
        if o == "tab":
            return app(x.args[1], j)
        if o == "cat":
            first = x.args[0]
            rest = seqcat(*x.args[1:])
            n = length(first)
            return ite(lt(j, n), lambda_safe(first, j), idx(rest, sub(j, n))) if not _decided(j, n) else (idx(first, j) if lt(j, n) is TRUE else idx(rest, sub(j, n)))
        if o == "upd":
            c = eq(j, x.args[1])
            if c is TRUE:
                return x.args[2]
            if c is FALSE:
                return idx(x.args[0], j)
            return ite(c, x.args[2], idx(x.args[0], j))
        if o == "coeffs":
            return pcoeff(x.args[0], j)
        if o == "slice":
            return idx(x.args[0], add(x.args[1], j))
        if o == "rotl":
            n = length(x.args[0])
            return idx(x.args[0], mod(add(j, x.args[1]), n))
        if o == "rev":
            return idx(x.args[0], sub(sub(length(x.args[0]), ONE), j))
        if o == "bigint":
            return raw("limb", x.args[0], j)
        t = raw("idx", x, j)
        if t.ty is None and x.ty is not None:
            t.ty = elem_ty(x.ty)
        return t
    return lift(f, s, i)


def lambda_safe(s, j):
    if s.op == "lit" and len(s.args) == 1:
        return s.args[0]
    return idx(s, j)


def _decided(j, n):
    c = lt(j, n)
    return c is TRUE or c is FALSE


CONS["idx"] = idx


def elem_ty(ty):
    if ty.get("k") in ("slice", "array"):
        return ty.get("tt")
    if ty.get("k") == "adt" and ty.get("aa") and ty["p"].split("::")[-1] in ("Vec", "VecDeque"):
        return ty["aa"][0]
    if ty.get("k") == "str" or (ty.get("k") == "adt" and ty["p"].endswith("::String")):
        return {"k": "char", "s": "char"}
    return None


def tab(n, f):
    """sequence [f(0), ..., f(n-1)]"""
    if n.op == "ite":
        return lift(lambda m: tab(m, f), n)
    if is_num(n) and n.args[0] <= 16:
        return seqlit([f(num(i)) for i in range(max(0, int(n.args[0])))])
    k = fresh()
    FACTS.append(sub(sub(n, k), ONE))
    try:
        b = f(k)
    finally:
        FACTS.pop()
    return mktab(n, k, b)


def mktab(n, k, b):
    if is_num(n) and n.args[0] <= 16:
        return seqlit([subst(b, {k: num(i)}) for i in range(max(0, int(n.args[0])))])
    # lift guards independent of the index
    if b.op == "ite":
        for a in support(b):
            if not contains(a, k):
                return ite(lit(a), mktab(n, k, assume(b, a, True)), mktab(n, k, assume(b, a, False)))
    # eta
    if b.op == "idx" and b.args[1] is k and not contains(b.args[0], k) and length(b.args[0]) is n:
        return b.args[0]
    if b.op == "pcoef" and b.args[1] is k and not contains(b.args[0], k) and n.op == "clen" and n.args[0] is b.args[0]:
        return raw("coeffs", b.args[0])
    return raw("tab", n, lam(k, b))


def _re_tab(n, l):
    if n.op == "ite":
        return lift(lambda m: _re_tab(m, l), n)
    k = fresh()
    FACTS.append(sub(sub(n, k), ONE))
    try:
        return mktab(n, k, app(l, k))
    finally:
        FACTS.pop()


CONS["tab"] = _re_tab


def seqcat(*ss):
    for s in ss:
        if s.op == "ite":
            return lift(seqcat, *ss)
    out = []
    for s in ss:
        if s.op == "cat":
            out.extend(s.args)
        else:
            out.append(s)
    res = []
    for s in out:
        if s.op == "lit" and not s.args:
            continue
        if res and res[-1].op == "lit" and s.op == "lit":
            res[-1] = raw("lit", *(res[-1].args + s.args))
        else:
            res.append(s)
    if not res:
        return raw("lit")
    if len(res) == 1:
        return res[0]
    return raw("cat", *res)


CONS["cat"] = seqcat


def seqset(s, i, v):
    def f(x, j):
        if x.op == "lit" and is_num(j) and 0 <= int(j.args[0]) < len(x.args):
            a = list(x.args)
            a[int(j.args[0])] = v
            return raw("lit", *a)
        if x.op == "upd" and x.args[1] is j:
            return f(x.args[0], j)
        if x.op == "coeffs":
            # new polynomial coefficient
            p = x.args[0]
            return raw("coeffs", add(p, mul(sub(v, pcoeff(p, j)), power(X, j))))
        if x.op == "tab" and not is_num(j):
            pass
        if idx(x, j) is v:
            return x
        return raw("upd", x, j, v)
    return lift(f, s, i)


CONS["upd"] = seqset


def seqslice(s, a, b):
    def f(x, lo, hi):
        if lo is ZERO and hi is length(x):
            return x
        if x.op == "lit" and is_num(lo) and is_num(hi):
            return seqlit(x.args[int(lo.args[0]):int(hi.args[0])])
        if x.op == "slice":
            return seqslice(x.args[0], add(x.args[1], lo), add(x.args[1], hi))
        if x.op == "tab":
            return tab(max0(sub(hi, lo)), lambda k: app(x.args[1], add(k, lo)))
        return raw("slice", x, lo, hi)
    return lift(f, s, a, b)


CONS["slice"] = seqslice


def seq_eq(a, b):
    if a is b:
        return TRUE
    if a.op in BYTE_OPS and b.op == a.op:
        return lit(raw("eqx", *sorted((a, b), key=lambda t: t.fp)))
    if a.op == "lit" and b.op == "lit" and all(is_num(x) for x in a.args) and all(is_num(x) for x in b.args):
        return TRUE if [x.args[0] for x in a.args] == [x.args[0] for x in b.args] else FALSE
    la, lb = length(a), length(b)
    e = eq(la, lb)
    if e is FALSE:
        return FALSE
    return And(e, Not(exists(la, lambda k: Not(eq(idx(a, k), idx(b, k))))))


def exists(n, f):
    if n.op == "ite":
        return lift(lambda m: exists(m, f), n)
    if is_num(n) and n.args[0] <= 16:
        return Or(*[f(num(i)) for i in range(max(0, int(n.args[0])))])
    k = fresh()
    FACTS.append(sub(sub(n, k), ONE))
    try:
        c = f(k)
    finally:
        FACTS.pop()
    return mkexists(n, k, c)


def mkexists(n, k, c):
    if c is FALSE:
        return FALSE
    if is_num(n) and n.args[0] <= 16:
        return Or(*[subst(c, {k: num(i)}) for i in range(max(0, int(n.args[0])))])
    if c is TRUE:
        return ge0(sub(n, ONE))
    if c.op == "ite":
        # guards independent of k
        for a in support(c):
            if not contains(a, k):
                return ite(lit(a), mkexists(n, k, assume(c, a, True)), mkexists(n, k, assume(c, a, False)))
        # split off single literals of the disjunction
        f = Not(c)
        for a, v in implied(f):
            l = lit(a) if v else Not(lit(a))
            rest = Not(assume(f, a, v))
            if rest is not FALSE or c is not Not(l):
                if rest is FALSE:
                    break
                return Or(mkexists(n, k, Not(l)), mkexists(n, k, rest))
    # existence over nested exists etc. stays an atom
    return lit(raw("exists", n, lam(k, c)))


def _re_exists(n, l):
    if n.op == "ite":
        return lift(lambda m: _re_exists(m, l), n)
    k = fresh()
    FACTS.append(sub(sub(n, k), ONE))
    try:
        return mkexists(n, k, app(l, k))
    finally:
        FACTS.pop()


CONS["exists"] = _re_exists


def forall(n, f):
    return Not(exists(n, lambda k: Not(f(k))))


def summ(n, f):
    if n.op == "ite":
        return lift(lambda m: summ(m, f), n)
    if is_num(n) and n.args[0] <= 16:
        r = ZERO
        for i in range(max(0, int(n.args[0]))):
            r = add(r, f(num(i)))
        return r
    k = fresh()
    FACTS.append(sub(sub(n, k), ONE))
    try:
        b = f(k)
    finally:
        FACTS.pop()
    return mksum(n, k, b)


def mksum(n, k, b):
    if is_num(n) and n.args[0] <= 16:
        r = ZERO
        for i in range(max(0, int(n.args[0]))):
            r = add(r, subst(b, {k: num(i)}))
        return r
    if b.op == "ite":
        for a in support(b):
            if not contains(a, k):
                return ite(lit(a), mksum(n, k, assume(b, a, True)), mksum(n, k, assume(b, a, False)))
        return raw("sum", n, lam(k, b))
    out = ZERO
    for m, c in R(b).items():
        dep = tuple((x, e) for x, e in m if contains(x, k))
        ind = tuple((x, e) for x, e in m if not contains(x, k))
        o = from_R({ind: c})
        if not dep:
            out = _add(out, _mul(o, n))
        else:
            out = add(out, mul(o, _sum_mono(n, k, dep)))
    return out


def _sum_mono(n, k, dep):
    # sum_{i < clen(q)} q_i z^i  is  q(z)
    pc = [x for x, e in dep if x.op == "pcoef" and e == 1 and x.args[1] is k and not contains(x.args[0], k)]
    if len(pc) == 1:
        q = pc[0].args[0]
        z = ONE
        good = True
        for x, e in dep:
            if x is pc[0]:
                continue
            if x.op == "pow" and not contains(x.args[0], k):
                r = R(x.args[1])
                if len(r) == 1 and ((k, 1),) in r and r[((k, 1),)].denominator == 1:
                    z = mul(z, power(x.args[0], num(r[((k, 1),)] * e)))
                    continue
            good = False
        if good:
            cl = clen(q)
            if n is cl:
                return peval(q, z)
            if known_nonneg(sub(n, cl)):
                return peval(q, z)
            if n.op == "min" and cl in n.args and not is_num(z):
                rest = [x for x in n.args if x is not cl]
                if len(rest) == 1:
                    return ite(ge(rest[0], cl), peval(q, z), raw("sum", n, lam(k, from_R({dep: Fraction(1)}))))
    # factorable powers: split pow(b, k + c)
    return raw("sum", n, lam(k, from_R({dep: Fraction(1)})))


def _re_sum(n, l):
    if n.op == "ite":
        return lift(lambda m: _re_sum(m, l), n)
    k = fresh()
    FACTS.append(sub(sub(n, k), ONE))
    try:
        return mksum(n, k, app(l, k))
    finally:
        FACTS.pop()


CONS["sum"] = _re_sum


def mkprod(n, k, b):
    if is_num(n) and n.args[0] <= 16:
        r = ONE
        for i in range(max(0, int(n.args[0]))):
            r = mul(r, subst(b, {k: num(i)}))
        return r
    if not contains(b, k):
        return power(b, n)
    if b.op == "ite":
        return raw("prod", n, lam(k, b))
    r = R(b)
    if len(r) == 1:
        (m, c), = r.items()
        out = power(num(c), n) if c != 1 else ONE
        for x, e in m:
            if contains(x, k):
                if x.op == "inv":
                    out = mul(out, inv(power(raw("prod", n, lam(k, x.args[0])), num(e))) if e > 0 else power(raw("prod", n, lam(k, x.args[0])), num(-e)))
                elif x.op == "pow" and not contains(x.args[0], k):
                    out = mul(out, power(power(x.args[0], mksum(n, k, x.args[1])), num(e)))
                else:
                    pr = raw("prod", n, lam(k, x))
                    out = mul(out, power(pr, num(e)) if e > 0 else inv(power(pr, num(-e))))
            else:
                out = mul(out, power(power(x, n), num(e)) if e > 0 else inv(power(power(x, n), num(-e))))
        return out
    return raw("prod", n, lam(k, b))


def _re_prod(n, l):
    k = fresh()
    return mkprod(n, k, app(l, k))


CONS["prod"] = _re_prod

# --------------------------------------------------------------- polynomials
X = raw("X")
POLY_OPS = {"X", "interp", "fromcoeffs", "prem"}


def is_poly_ty(ty):
    return ty is not None and ty.get("k") == "adt" and ty["p"].endswith("univariate::DensePolynomial")


def poly_atom(x):
    if x.op in POLY_OPS:
        return True
    if x.op == "pow":
        return is_poly(x.args[0])
    if x.op == "inv":
        return is_poly(x.args[0])
    if x.op == "bigmul":
        return is_poly(x.args[0]) or is_poly(x.args[1])
    if x.op == "bd":
        return len(x.args) > 1
    if x.op == "proj" and x.args[2][-1:] == "p" and x.args[2][:-1].isdigit():
        return True
    return is_poly_ty(x.ty)


def is_poly(t):
    if t.op == "ring":
        return any(poly_atom(x) for m, c in t.args[0] for x, e in m)
    return poly_atom(t)


def polyish(t):
    """a polynomial, or a scalar used as a constant polynomial"""
    return is_poly(t) or t.op in ("num", "ring") or t.op == "ite" and all(polyish(x) for x in leaves(t))


def peval(p, z):
    def f(q, w):
        out = ZERO
        for m, c in R(q).items():
            v = num(c)
            for x, e in m:
                y = peval_atom(x, w)
                v = mul(v, power(y, num(e)) if e > 0 else inv(power(y, num(-e))))
            out = add(out, v)
        return out
    return lift(f, p, z)


def peval_atom(x, w):
    if x is X:
        return w
    if x.op == "pow" and is_poly(x.args[0]):
        return power(peval(x.args[0], w), x.args[1])
    if x.op == "inv" and is_poly(x.args[0]):
        return inv(peval(x.args[0], w))
    if x.op == "bigmul":
        return mul(peval(x.args[0], w), peval(x.args[1], w))
    if poly_atom(x):
        if w is ZERO:
            return pcoeff(x, ZERO)
        return raw("peval", x, w)
    return x


CONS["peval"] = peval


def pcoeff(p, i):
    def f(q, j):
        r = R(q)
        # explicit small polynomials in X with scalar coefficients
        if is_num(j) and all(all((x is X) or not poly_atom(x) for x, e in m) for m in r):
            out = {}
            for m, c in r.items():
                e = sum(k for x, k in m if x is X)
                if e == int(j.args[0]):
                    mm = tuple((x, k) for x, k in m if x is not X)
                    out[mm] = out.get(mm, 0) + c
            return from_R(out)
        if q.op == "fromcoeffs":
            # only valid inside the list; callers stay inside
            return idx(q.args[0], j)
        return raw("pcoef", q, j)
    return lift(f, p, i)


CONS["pcoef"] = pcoeff


def fromcoeffs(s):
    def f(x):
        if x.op == "coeffs":
            return x.args[0]
        if x.op == "lit":
            out = ZERO
            for i, c in enumerate(x.args):
                out = add(out, mul(c, power(X, num(i))))
            return out
        if x.op == "tab":
            k = fresh()
            b = app(x.args[1], k)
            if b is ZERO:
                return ZERO
        return raw("fromcoeffs", x)
    return lift(f, s)


CONS["fromcoeffs"] = fromcoeffs


def coeffs(p):
    def f(q):
        if q is ZERO:
            return seqlit([])
        return raw("coeffs", q)
    return lift(f, p)


CONS["coeffs"] = coeffs


def linear_root(b):
    """z when b is X - z with z free of polynomials"""
    r = R(b)
    if r.get(((X, 1),)) is None:
        return None
    c = r[((X, 1),)]
    rest = {m: -v / c for m, v in r.items() if m != ((X, 1),)}
    if any(poly_atom(x) for m in rest for x, e in m):
        return None
    return from_R(rest)


def _mul_inv(q, x):
    """q * x.args[0] when x = inv(..) occurs linearly in every monomial of q"""
    out = {}
    for m, c in R(q).items():
        d = dict(m)
        if d.get(x) != 1:
            return None
        del d[x]
        k = tuple(sorted(d.items(), key=lambda p: p[0].fp))
        out[k] = out.get(k, 0) + c
    return from_R(out)


def scalar_poly(q):
    return all((x is X) or not poly_atom(x) for m, c in R(q).items() for x, e in m)


def clen(p):
    """number of coefficients of the normalised polynomial (0 for the zero polynomial)"""
    def f(q):
        if q is ZERO:
            return ZERO
        # exact quotient by a monic linear polynomial
        lin = [x for m in R(q) for x, e in m if x.op == "inv" and e == 1 and linear_root(x.args[0]) is not None]
        if lin:
            x = lin[0]
            qq = _mul_inv(q, x)
            if qq is not None and not contains(qq, x):
                P_ = from_R({m: c for m, c in R(qq).items() if any(poly_atom(y) for y, e in m)})
                return max0(sub(clen(P_), ONE))
        if scalar_poly(q):
            d = max([sum(e for x, e in m if x is X) for m in R(q)] + [0])
            if 0 <= d <= 8 and all(e > 0 for m in R(q) for x, e in m if x is X):
                out = ZERO
                for i in range(d + 1):
                    c = pcoeff(q, num(i))
                    out = ite(eq(c, ZERO), out, num(i + 1))
                return out
        return raw("clen", q)
    return lift(f, p)


CONS["clen"] = clen


def prem(p, d):
    """remainder of p by d"""
    def f(a, b):
        if a is ZERO:
            return ZERO
        r = R(b)
        # linear monic  X - root
        lin = {m: c for m, c in r.items() if any(x is X for x, e in m)}
        if len(lin) == 1 and ((X, 1),) in lin and not any(poly_atom(x) for m in r for x, e in m if x is not X):
            c = lin[((X, 1),)]
            root = from_R({m: -v / c for m, v in r.items() if m != ((X, 1),)})
            return peval(a, root)
        return raw("prem", a, b)
    return lift(f, p, d)


CONS["prem"] = prem


def pquot(p, d):
    return mul(sub(p, prem(p, d)), inv(d))


def interp(s, n):
    """polynomial of degree < n with the given values on the size-n domain (zero padded)"""
    def f(x, m):
        if x.op == "tab" and x.args[0] is m:
            k = fresh()
            b = app(x.args[1], k)
            if not contains(b, k) and b.op != "ite":
                return b
        return raw("interp", x, m)
    return lift(f, s, n)


CONS["interp"] = interp


def root(n, i):
    return power(uf("root", n), i)


def vanish(n):
    return sub(power(X, n), ONE)


# --------------------------------------------------------------- irregular sequences, folds
def mkfilt(n, m, cond, val):
    """[val(m) for m in 0..n if cond(m)]"""
    if n.op == "ite":
        return lift(lambda x: mkfilt(x, m, cond, val), n)
    if cond is FALSE:
        return seqlit([])
    if cond is TRUE:
        return mktab(n, m, val)
    if is_num(n) and n.args[0] <= 16:
        out = seqlit([])
        for i in range(max(0, int(n.args[0]))):
            c, v = subst(cond, {m: num(i)}), subst(val, {m: num(i)})
            out = seqcat(out, ite(c, seqlit([v]), seqlit([])))
        return out
    if cond.op == "ite":
        for a in support(cond):
            if not contains(a, m):
                return ite(lit(a), mkfilt(n, m, assume(cond, a, True), assume(val, a, True)),
                           mkfilt(n, m, assume(cond, a, False), assume(val, a, False)))
    return raw("filt", n, lam(m, cond), lam(m, val))


def _re_filt(n, lc, lv):
    k = fresh()
    return mkfilt(n, k, app(lc, k), app(lv, k))


CONS["filt"] = _re_filt


def mkflat(n, m, tail):
    if n.op == "ite":
        return lift(lambda x: mkflat(x, m, tail), n)
    if is_num(n) and n.args[0] <= 16:
        out = seqlit([])
        for i in range(max(0, int(n.args[0]))):
            out = seqcat(out, subst(tail, {m: num(i)}))
        return out
    if tail.op == "lit" and len(tail.args) == 1:
        return mktab(n, m, tail.args[0])
    return raw("flat", n, lam(m, tail))


def _re_flat(n, l):
    k = fresh()
    return mkflat(n, k, app(l, k))


CONS["flat"] = _re_flat


def mkfold(n, init, l):
    """state after n steps of l(k)(state) from init"""
    if n.op == "ite":
        return lift(lambda x: mkfold(x, init, l), n)
    if is_num(n) and n.args[0] <= 16:
        s = init
        for i in range(max(0, int(n.args[0]))):
            inner = app(l, num(i))
            s = app(inner, s)
        return s
    r = raw("fold", n, init, l)
    return lit(r) if is_boolish(init) else r


CONS["fold"] = mkfold


def lazytab(init, L, k, c0, v2):
    return None


POW2 = []


def npow2(n):
    def f(x):
        if is_num(x):
            v = 1
            while v < x.args[0]:
                v *= 2
            return num(v)
        if x in POW2 or x.op == "npow2":
            return x
        if x.op == "pow" and x.args[0] is num(2):
            return x
        return raw("npow2", x)
    return lift(f, n)


CONS["npow2"] = npow2


def ilog2(n):
    def f(x):
        if is_num(x) and x.args[0] > 0:
            return num(int(x.args[0]).bit_length() - 1)
        if x.op == "pow" and x.args[0] is num(2):
            return x.args[1]
        return raw("ilog2", x)
    return lift(f, n)


CONS["ilog2"] = ilog2


def rev(s):
    def f(x):
        if x.op == "lit":
            return seqlit(x.args[::-1])
        if x.op == "rev":
            return x.args[0]
        return raw("rev", x)
    return lift(f, s)


CONS["rev"] = rev


def rotl(s, r):
    def f(x, j):
        if j is ZERO:
            return x
        if x.op == "lit" and is_num(j) and x.args:
            i = int(j.args[0]) % len(x.args)
            return seqlit(x.args[i:] + x.args[:i])
        if x.op == "rotl":
            return rotl(x.args[0], add(x.args[1], j))
        return raw("rotl", x, j)
    return lift(f, s, r)


CONS["rotl"] = rotl

# --------------------------------------------------------------- printing
def show(t, d=0):
    if d > 14:
        return "…"
    o = t.op
    s = lambda x: show(x, d + 1)
    if o == "num":
        return str(t.args[0])
    if o == "ring":
        out = []
        items = t.args[0]
        for m, c in items[:12]:
            ms = "*".join(s(x) + ("" if e == 1 else "^%d" % e) for x, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        if len(items) > 12:
            out.append("…(%d terms)" % len(items))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if o in ("true", "false"):
        return o
    if o == "ite":
        a, h, l = t.args
        if h is TRUE and l is FALSE:
            return s(a)
        if h is FALSE and l is TRUE:
            return "!" + s(a)
        if l is FALSE:
            return "(%s && %s)" % (s(a), s(h))
        if h is FALSE:
            return "(!%s && %s)" % (s(a), s(l))
        return "if(%s){%s}else{%s}" % (s(a), s(h), s(l))
    if o == "adt":
        nm = t.args[0].split("::")[-1] + ("::" + t.args[1] if t.args[1] else "")
        return nm + "{" + ", ".join("%s: %s" % (n, s(v)) for n, v in t.args[2]) + "}"
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in t.args) + ")"
    if o == "lit":
        return "[" + ", ".join(s(x) for x in t.args) + "]"
    if o == "lam":
        return "λ%d.%s" % (t.args[0], s(t.args[1]))
    if o == "bd":
        return "#%d" % t.args[0]
    if o in ("bv", "phi"):
        return "%s%d" % (o, t.args[0])
    if o == "param":
        return t.args[0]
    if o == "proj":
        return s(t.args[0]) + "." + (t.args[1] + "." if t.args[1] else "") + t.args[2]
    if o == "idx":
        return s(t.args[0]) + "[" + s(t.args[1]) + "]"
    if o == "str":
        return repr(t.args[0])

    def sa(a):
        if isinstance(a, Term):
            return s(a)
        if isinstance(a, tuple):
            return "(" + ",".join(sa(x) for x in a) + ")"
        return str(a)
    return o + "(" + ", ".join(sa(a) for a in t.args) + ")"
