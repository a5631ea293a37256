"""Rules for the KZG crate (K01-K06)."""
import re
from . import terms as T, lint
from .terms import raw, num, add, sub, mul, neg, inv, power, idx, length, tab, seqlit, adt, proj, ite, And, Or, Not, eq, ge, lt, TRUE, FALSE, ZERO, ONE, X
from .api import PANIC, Missing
from .check import prop

COM = "kzg::commitment::KzgCommitment"
OPEN = "kzg::opening::KzgOpening"


def com(g):
    return adt(COM, None, [("0", g)])


def opening(g, y):
    return adt(OPEN, None, [("0", g), ("1", y)])


class KZG:
    """arbitrary SRS and scheme, described through the public API only"""

    def __init__(self, c, srs_from=None):
        self.c = c
        self.w = c.world()
        self.srs_ty = self.arg_ty("kzg::scheme::KzgScheme::new", 0)
        self.srs = self.w.typed("srs", self.srs_ty)
        self.G = self.acc("kzg::srs::Srs::g1_points")
        self.g2 = self.acc("kzg::srs::Srs::g2")
        self.g2s = self.acc("kzg::srs::Srs::g2s")
        self.scheme = self.w.value(c.body("kzg::scheme::KzgScheme::new"), [self.srs])
        n = length(self.G)
        self.nonempty = ge(n, ONE)
        self.w.I.learn(self.nonempty)

    def arg_ty(self, path, i):
        b = self.c.body(path)
        fr = self.w.frame(b, {})
        return self.w.I.ty(fr, b["params"][i]["t"])

    def acc(self, path):
        return self.w.value(self.c.body(path), [self.srs])

    def args(self, b, first=0, names=None):
        """arbitrary arguments after the receiver"""
        a = self.w.params(b, {}, names)
        return a[first:]

    def call(self, path, *args):
        return self.w.call(self.c.body(path), list(args))


def commit_term(G, p):
    """the prescribed commitment of polynomial p: refused when it has more coefficients than the SRS has powers"""
    cl = T.clen(p)
    return ite(ge(length(G), cl), com(T.summ(cl, lambda i: mul(T.pcoeff(p, i), idx(G, i)))), PANIC)


@prop("K03", "KzgScheme::commit(p) = Sum_{i<#coeffs(p)} p_i*G_i for every p, refused iff p has more coefficients than the SRS; commit_vector is commit of the "
      "polynomial with those coefficients; commit_para(c) = c*G_0")
def K03(c):
    def f():
        k = KZG(c)
        b = c.body("kzg::scheme::KzgScheme::commit")
        p = k.args(b, 1)[0]
        c.same("commit", b, commit_term(k.G, p), k.w.call(b, [k.scheme, p]), k.nonempty)
    c.guard("commit", f)

    def f():
        k = KZG(c)
        b = c.body("kzg::scheme::KzgScheme::commit_vector")
        p = k.args(b, 1)[0]
        c.same("commit_vector", b, commit_term(k.G, T.fromcoeffs(p)), k.w.call(b, [k.scheme, p]), k.nonempty)
    c.guard("commit_vector", f)

    def f():
        k = KZG(c)
        b = c.body("kzg::scheme::KzgScheme::commit_para")
        x = k.args(b, 1)[0]
        c.same("commit_para", b, com(mul(x, idx(k.G, ZERO))), k.w.call(b, [k.scheme, x]), k.nonempty)
    c.guard("commit_para", f)

    def f():
        # on a reference string for secret s the commitment is p(s)*G1
        w = c.world()
        nb = c.body("kzg::srs::Srs::new_from_secret")
        s, n = w.params(nb, {}, ["s", "n"])
        srs = w.value(nb, [s, n])
        sch = w.value(c.body("kzg::scheme::KzgScheme::new"), [srs])
        b = c.body("kzg::scheme::KzgScheme::commit")
        p = w.params(b, {})[1]
        g1 = raw("generator", "G1")
        spec = ite(ge(add(n, num(3)), T.clen(p)), com(mul(T.peval(p, s), g1)), PANIC)
        c.same("commit on a generated SRS", b, spec, w.call(b, [sch, p]))
    c.guard("commit on a generated SRS", f)


@prop("K04", "open(p, z) = (commitment to (p - p(z))/(x - z), p(z)) for every p including 0 and constants; open_vector(v, z) = open(poly(v), z)")
def K04(c):
    def spec(k, p, z):
        y = T.peval(p, z)
        q = mul(sub(p, y), inv(sub(X, z)))
        # #coeffs(q) = max(#coeffs(p) - 1, 0)
        cl = T.max0(sub(T.clen(p), ONE))
        val = opening(T.summ(cl, lambda i: mul(T.pcoeff(q, i), idx(k.G, i))), y)
        return ite(ge(length(k.G), cl), val, PANIC)

    def f():
        k = KZG(c)
        b = c.body("kzg::scheme::KzgScheme::open")
        p, z = k.args(b, 1)
        c.same("open", b, spec(k, p, z), k.w.call(b, [k.scheme, p, z]), k.nonempty)
    c.guard("open", f)

    def f():
        k = KZG(c)
        b = c.body("kzg::scheme::KzgScheme::open_vector")
        v, z = k.args(b, 1)
        c.same("open_vector", b, spec(k, T.fromcoeffs(v), z), k.w.call(b, [k.scheme, v, z]), k.nonempty)
    c.guard("open_vector", f)

    def f():
        k = KZG(c)
        b = c.body("kzg::opening::KzgOpening::eval")
        o = k.args(b)[0]
        c.same("KzgOpening::eval", b, proj(o, OPEN, None, "1"), k.w.call(b, [o]))
    c.guard("KzgOpening::eval", f)


def pairing_ok(k, cm, z, y, wit):
    """e(w, [s]_2 - z [1]_2) = e(C - y G1, [1]_2), bilinear form"""
    g1 = raw("generator", "G1")
    return eq(mul(wit, sub(k.g2s, mul(z, k.g2))), mul(sub(cm, mul(y, g1)), k.g2))


@prop("K01", "KzgScheme::verify(C, (w, y), z) = [ e(w, s*G2 - z*G2) = e(C - y*G1, G2) ] with no other exit")
def K01(c):
    def f():
        k = KZG(c)
        b = c.body("kzg::scheme::KzgScheme::verify")
        cm, op, z = k.args(b, 1)
        spec = pairing_ok(k, proj(cm, COM, None, "0"), z, proj(op, OPEN, None, "1"), proj(op, OPEN, None, "0"))
        o = k.w.call(b, [k.scheme, cm, op, z])
        c.same("verify", b, spec, o)
        c.rule("verify is free of side effects", b, not [e for e in o.effects if e[1] != "print"], "effects: %s" % [e[1] for e in o.effects],
               "verification depends on its arguments only")
    c.guard("verify", f)

    def f():
        # completeness and soundness of the equation against a generated SRS: accepted iff (s - z) w = C - y G1
        w = c.world()
        nb = c.body("kzg::srs::Srs::new_from_secret")
        s, n = w.params(nb, {}, ["s", "n"])
        srs = w.value(nb, [s, n])
        sch = w.value(c.body("kzg::scheme::KzgScheme::new"), [srs])
        b = c.body("kzg::scheme::KzgScheme::verify")
        cm, op, z = w.params(b, {})[1:]
        g1 = raw("generator", "G1")
        spec = eq(mul(sub(s, z), proj(op, OPEN, None, "0")), sub(proj(cm, COM, None, "0"), mul(proj(op, OPEN, None, "1"), g1)))
        c.same("verify on a generated SRS", b, spec, w.call(b, [sch, cm, op, z]))
        ob = c.body("kzg::scheme::KzgScheme::open")
        cb = c.body("kzg::scheme::KzgScheme::commit")
        p = w.params(cb, {})[1]
        oo = w.call(ob, [sch, p, z])
        co = w.call(cb, [sch, p])
        if oo.ok is not FALSE and co.ok is not FALSE:
            v = w.call(b, [sch, co.val, oo.val, z])
            asm = And(oo.ok, co.ok)
            c.same("honest openings verify", b, ite(asm, TRUE, PANIC), ite(asm, v.term(), PANIC))
    c.guard("verify on a generated SRS", f)


@prop("K02", "batch_verify accepts iff e(Sum r_i w_i, s*G2) = e(Sum r_i (C_i - y_i G1 + z_i w_i), G2) with r_i the i-th draw of the caller's generator, over all "
      "triples, lists of equal length only")
def K02(c):
    def f():
        k = KZG(c)
        b = c.body("kzg::scheme::KzgScheme::batch_verify")
        a = k.args(b, 1, ["self", "C", "Z", "O", "rng"])
        C, Z, O, r = a
        Cv, Zv, Ov = [k.w.I.val(x) for x in (C, Z, O)]
        n = length(Cv)
        o = k.w.call(b, [k.scheme] + a)
        st = raw("param", "rng")
        t = o.term()
        g1 = raw("generator", "G1")
        fr = "ark_ff::Fp"
        # the generator's draws: i-th weight
        ws = sorted({x.args[2] for x in subterms(t) if x.op == "rand"})
        if not ws:
            c.rule("weights are drawn", b, False, "no value drawn from the caller's generator takes part in the decision",
                   "each claim is weighted by its own fresh value")
            return
        key = ws[0]
        W = lambda i: mkrand(t, i, key)
        ci = lambda i: proj(idx(Cv, i), COM, None, "0")
        yi = lambda i: proj(idx(Ov, i), OPEN, None, "1")
        wi = lambda i: proj(idx(Ov, i), OPEN, None, "0")
        lhs = mul(T.summ(n, lambda i: mul(W(i), wi(i))), k.g2s)
        rhs = mul(T.summ(n, lambda i: mul(W(i), add(sub(ci(i), mul(yi(i), g1)), mul(idx(Zv, i), wi(i))))), k.g2)
        same = And(eq(n, length(Zv)), eq(n, length(Ov)))
        spec = ite(same, eq(lhs, rhs), PANIC)
        got = t
        if not has_panic(t):
            spec = ite(same, eq(lhs, rhs), FALSE)
        c.same("batch_verify", b, spec, o, n=900 if c.thorough else 200)
        c.same("batch_verify with coinciding claims", b, spec, o, assume=same, n=6000 if c.thorough else 1500, pool=2)
        ent = [e for e in o.effects if e[1] == "entropy"]
        c.rule("weights come from the caller's generator", b, all(from_caller(x) for x in subterms(t) if x.op == "rand"),
               "%d draws in the summary" % len([x for x in subterms(t) if x.op == "rand"]), "every weight is a draw of the generator argument")
    c.guard("batch_verify", f)


def from_caller(x):
    return T.contains(x, raw("param", "rng")) or any(y.op == "param" and y.args[0] == "rng" for y in subterms(x))


def mkrand(t, i, key):
    """i-th draw of the caller's generator, as the analysis names it"""
    xs = [x for x in subterms(t) if x.op == "rand"]
    st = xs[0].args[0]
    return T.uf("rand", st, i, key) if False else T.lift(lambda j: raw("rand", st, j, key), i)


def subterms(t, seen=None):
    out, seen, st = [], set(), [t]
    while st:
        y = st.pop()
        if y.fp in seen:
            continue
        seen.add(y.fp)
        out.append(y)
        if y.op == "ring":
            st.extend(a for m, c in y.args[0] for a, e in m)
        else:
            st.extend(T._children(y.args))
    return out


def has_panic(t):
    return any(x is PANIC for x in T.leaves(t))


@prop("K05", "+, -, unary -, * on commitments and + on openings are the group operations on the points and the field sum of the evaluations; "
      "aggregate_commitments(C, v) = Sum_i v^i C_i over all commitments")
def K05(c):
    def binop(name, trait, meth, f, typ="KzgCommitment", second="c"):
        def g():
            w = c.world()
            found = False
            for b in list(c.db.impls.get((trait, meth), [])):
                it = b["crate"].types[b["impl_self"]]
                isref = it["k"] == "ref"
                base = b["crate"].types[it["t"]] if isref else it
                if not (base["k"] == "adt" and base["p"].split("::")[-1] == typ):
                    continue
                found = True
                a = w.params(b, {}, ["a", "b"])
                v = [w.I.val(x) for x in a]
                c.same("%s%s" % (name, " (by reference)" if isref else ""), b, f(*v), w.call(b, a))
            if not found:
                raise Missing("%s for %s" % (trait, typ))
        c.guard(name, g)
    g = lambda x: proj(x, COM, None, "0")

    def scal(x):
        return x
    binop("commitment + commitment", "Add", "add", lambda a, b: com(add(g(a), g(b))))
    binop("commitment - commitment", "Sub", "sub", lambda a, b: com(sub(g(a), g(b))))
    binop("-commitment", "Neg", "neg", lambda a: com(neg(g(a))))
    binop("commitment * scalar", "Mul", "mul", lambda a, b: com(mul(g(a), b)))
    binop("opening + opening", "Add", "add", lambda a, b: opening(add(proj(a, OPEN, None, "0"), proj(b, OPEN, None, "0")),
                                                              add(proj(a, OPEN, None, "1"), proj(b, OPEN, None, "1"))), typ="KzgOpening")

    def f():
        w = c.world()
        b = c.body("kzg::scheme::KzgScheme::aggregate_commitments")
        a = w.params(b, {}, ["C", "v"])
        C, v = [w.I.val(x) for x in a]
        spec = com(T.summ(length(C), lambda i: mul(power(v, i), g(w.I.val(idx(C, i))))))
        c.same("aggregate_commitments", b, spec, w.call(b, a))
    c.guard("aggregate_commitments", f)

    def f():
        w = c.world()
        b = c.body("kzg::commitment::KzgCommitment::inner")
        a = w.params(b, {}, ["a"])
        c.same("KzgCommitment::inner", b, g(w.I.val(a[0])), w.call(b, a))
    c.guard("KzgCommitment::inner", f)


@prop("K06", "new_from_secret(s, n) holds [s^i*G1 for i < n+3], G2, s*G2; new(n) is that for one fresh entropy draw; the secret occurs nowhere else in the SRS")
def K06(c):
    g1, g2 = raw("generator", "G1"), raw("generator", "G2")

    def check(w, srs, s, n, tag, b):
        ok = {}
        for acc, sp in (("g1_points", tab(add(n, num(3)), lambda i: mul(power(s, i), g1))), ("g2", g2), ("g2s", mul(s, g2))):
            ab = c.body("kzg::srs::Srs::" + acc)
            c.same("%s.%s" % (tag, acc), ab, sp, w.call(ab, [srs]))
        # every field is free of the secret except as a multiple of a group generator
        if srs.op == "adt":
            for nme, v in srs.args[2]:
                bad = bare(v, s)
                c.rule("%s does not retain the secret in %s" % (tag, nme), b, not bad, "field %s" % nme, "the secret occurs only as exponent of a group generator")

    def f():
        w = c.world()
        b = c.body("kzg::srs::Srs::new_from_secret")
        s, n = w.params(b, {}, ["s", "n"])
        o = w.call(b, [s, n])
        c.rule("new_from_secret never fails", b, o.panic is FALSE, "panic condition %s" % T.show(o.panic)[:200])
        check(w, o.val, s, n, "new_from_secret", b)
    c.guard("new_from_secret", f)

    def f():
        w = c.world()
        b = c.body("kzg::srs::Srs::new")
        n, = w.params(b, {}, ["n"])
        o = w.call(b, [n])
        srs = o.val
        ents = [x for x in subterms(o.term()) if x.op == "rand"]
        src = {x for x in ents if any(y.op == "entropy" for y in subterms(x))}
        c.rule("new draws its secret from system entropy", b, bool(ents) and len(src) == len(ents) and not any(T.contains(x, n) for x in ents),
               "%d distinct draws in the reference string, %d from system entropy" % (len(ents), len(src)),
               "the secret is a fresh system-entropy draw")
        if len(src) == 1:
            check(w, srs, list(src)[0], n, "new", b)
        elif ents:
            c.rule("new uses one secret", b, False, "%d different random values enter the reference string" % len(ents))
    c.guard("new", f)

    for p in ("kzg::srs::Srs::new", "kzg::srs::Srs::new_from_secret"):
        def f(p=p):
            b = c.body(p)
            r = lint.reach(c.db, [b])
            hits, n = [], 0
            for h, (x, fr) in r.items():
                for node, q, key in lint.external(c.db, x):
                    n += 1
                    if KEEPS.search(q) or KEEPS.search(key):
                        hits.append("%s at %s (%s)" % (q, node["sp"], lint.path_to(r, x)))
            c.calls += n
            c.rule(p.split("::", 1)[1] + " keeps nothing", b, not hits, "; ".join(hits) or "%d external call sites" % n,
                   "no call site on the way from the secret to the reference string writes to a static, a file, a socket or the environment")
        c.guard(p + " keeps nothing", f)


KEEPS = re.compile(r"LocalKey.*::(with|set|with_borrow_mut|replace|take)$|(Mutex|RwLock|OnceLock|OnceCell|LazyLock).*::(lock|write|set|get_or_init)$|Atomic\w*.*::(store|swap|fetch_\w+)$|"
                   r"^std::fs::|fs::File|TcpStream|UdpSocket|set_var$")


def bare(v, s):
    """s occurs in v outside a monomial that also carries a group generator"""
    seen = set()

    def walk(t, ok):
        if (t.fp, ok) in seen:
            return False
        seen.add((t.fp, ok))
        if t is s:
            return not ok
        if t.op == "ring":
            for m, co in t.args[0]:
                g = ok or any(x.op == "generator" for x, e in m)
                for x, e in m:
                    if walk(x, g):
                        return True
            return False
        return any(walk(x, ok) for x in T._children(t.args))
    return walk(v, False)
