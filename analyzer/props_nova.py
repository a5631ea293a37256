"""Rules for the Nova crate (N01-N10)."""
from . import terms as T, rieval as RI
from .terms import raw, num, add, sub, mul, neg, power, idx, length, tab, seqlit, adt, proj, ite, And, Or, Not, eq, ge, lt, TRUE, FALSE, ZERO, ONE
from .api import PANIC, Missing, Spec
from .check import prop
from .props_misc import Probe, contiguous, encodings, empty
from .trials import trial, choose
from .props_kzg import KZG, COM, OPEN, com, subterms, commit_term, pairing_ok

FI = "nova::r1cs::FInstance"
FW = "nova::r1cs::FWitness"
R1 = "nova::r1cs::R1CS"
NP = "nova::nifs::NIFSProof"
CIR = "nova::circuit::AugmentedCircuit"
ST = "nova::circuit::State"
IV = "nova::ivc::IVC"
IVP = "nova::ivc::IVCProof"
ZK = "nova::ivc::ZkIVCProof"
NIFS = "nova::nifs::NIFS::"
TRN = "nova::transcript::Transcript"


def P(v, path, n):
    a = T.ADTS.get(path)
    if not a or n not in [x for x, t, p in a["v"][0]["f"]]:
        raise Missing("%s.%s" % (path, n))
    return proj(v, path, None, n)


def inst(v):
    return {n: P(v, FI, n) for n in ("com_e", "u", "com_w", "x")}


def pt(v):
    return proj(v, COM, None, "0")


def tup(v, i):
    return proj(v, None, None, str(i))


def fold_inst(r, a, b, ct):
    A, B = inst(a), inst(b)
    return dict(com_e=com(add(add(pt(A["com_e"]), mul(r, pt(ct))), mul(power(r, num(2)), pt(B["com_e"])))),
                u=add(A["u"], mul(r, B["u"])),
                com_w=com(add(pt(A["com_w"]), mul(r, pt(B["com_w"])))),
                x=tab(length(A["x"]), lambda i: add(idx(A["x"], i), mul(r, idx(B["x"], i)))))


def fold_wit(r, a, b, t):
    e1, e2, w1, w2 = P(a, FW, "e"), P(b, FW, "e"), P(a, FW, "w"), P(b, FW, "w")
    return dict(e=tab(length(e1), lambda i: add(add(idx(e1, i), mul(r, idx(t, i))), mul(power(r, num(2)), idx(e2, i)))),
                w=tab(length(w1), lambda i: add(idx(w1, i), mul(r, idx(w2, i)))))


def build(path, d):
    """a struct with the prescribed fields, in declaration order"""
    names = [x for x, t, p in T.ADTS[path]["v"][0]["f"]]
    if set(names) != set(d):
        raise Missing("fields of " + path)
    return adt(path, None, [(n, d[n]) for n in names])


def each(c, name, anchor, spec, o, path, val=None, assume=TRUE, **kw):
    """every prescribed field of a struct result"""
    v = o.val if val is None else val
    for f, s in spec.items():
        c.same("%s.%s" % (name, f), anchor, s, (ite(o.ok, P(v, path, f), PANIC), [p[0] for p in o.soft]), assume, **kw)


def mv(m, z, i):
    return T.summ(length(z), lambda j: mul(idx(idx(m, i), j), idx(z, j)))


def mats(r1cs):
    return [P(r1cs, R1, "matrix_" + x) for x in "abc"]


def shaped(A, B, C, n):
    """three matrices with the same number of rows, every row of length n"""
    rows = length(A)
    full = lambda m: T.forall(rows, lambda i: eq(length(idx(m, i)), n))
    return And(eq(length(B), rows), eq(length(C), rows), full(A), full(B), full(C))


def cross(A, B, C, u1, u2, z1, z2):
    return tab(length(A), lambda i: sub(sub(add(mul(mv(A, z1, i), mv(B, z2, i)), mul(mv(A, z2, i), mv(B, z1, i))), mul(u1, mv(C, z2, i))), mul(u2, mv(C, z1, i))))


def zvec(w, x, u):
    return T.seqcat(T.seqcat(w, x), seqlit([u]))


def same_dims(fi1, fi2, fw1=None, fw2=None, t=None):
    cs = [eq(length(P(fi1, FI, "x")), length(P(fi2, FI, "x")))] if fi1 is not None else []
    if fw1 is not None:
        cs += [eq(length(P(fw1, FW, "w")), length(P(fw2, FW, "w"))), eq(length(P(fw1, FW, "e")), length(P(fw2, FW, "e")))]
        if t is not None:
            cs.append(eq(length(t), length(P(fw1, FW, "e"))))
    return And(*cs)


@prop("N01", "fold: E1 + r*T + r^2*E2, W1 + r*W2, u1 + r*u2, x1 + r*x2 and the same combinations of the commitments; T = Az1*Bz2 + Az2*Bz1 - u1*Cz2 - u2*Cz1 with "
      "z = (W, x, u); prover and verifier return exactly these for their challenge")
def N01(c):
    def f():
        w = c.world()
        b = c.body(NIFS + "compute_t")
        r1, u1, u2, z1, z2 = a = w.params(b, {}, ["r1cs", "u1", "u2", "z1", "z2"])
        A, B, C = mats(r1)
        n = length(z1)
        c.same("compute_t", b, cross(A, B, C, u1, u2, z1, z2), w.call(b, a), And(eq(length(z2), n), shaped(A, B, C, n)))
    c.guard("compute_t", f)

    def f():
        w = c.world()
        b = c.body(NIFS + "fold_witness")
        r, a1, a2, t = a = w.params(b, {}, ["r", "fw1", "fw2", "t"])
        each(c, "fold_witness", b, fold_wit(r, a1, a2, t), w.call(b, a), FW, assume=same_dims(None, None, a1, a2, t))
    c.guard("fold_witness", f)

    for nm in ("fold_instance", "verifier"):
        def f():
            w = c.world()
            b = c.body(NIFS + nm)
            r, a1, a2, ct = a = w.params(b, {}, ["r", "fi1", "fi2", "com_t"])
            each(c, nm, b, fold_inst(r, a1, a2, ct), w.call(b, a), FI, assume=same_dims(a1, a2))
        c.guard(nm, f)

    def f():
        k = KZG(c)
        w = k.w
        b = c.body(NIFS + "prover")
        r1, fw1, fw2, fi1, fi2, sch, tr = a = w.params(b, {}, ["r1cs", "fw1", "fw2", "fi1", "fi2", "scheme", "tr"])
        a[5] = k.scheme
        o = w.call(b, a)
        A, B, C = mats(r1)
        z1 = zvec(P(fw1, FW, "w"), P(fi1, FI, "x"), P(fi1, FI, "u"))
        z2 = zvec(P(fw2, FW, "w"), P(fi2, FI, "x"), P(fi2, FI, "u"))
        t = cross(A, B, C, P(fi1, FI, "u"), P(fi2, FI, "u"), z1, z2)
        r = tup(o.val, 3)
        ct = tup(o.val, 2)
        asm = And(same_dims(fi1, fi2, fw1, fw2), eq(length(P(fw1, FW, "e")), length(A)), shaped(A, B, C, length(z1)))
        small = {"p1": [1, 1, 2]}
        okc = [p[0] for p in o.soft]
        c.same("prover: cross-term commitment", b, commit_term(k.G, T.fromcoeffs(t)), (ite(o.ok, ct, PANIC), okc), And(asm, k.nonempty))
        fits = And(k.nonempty, ge(length(k.G), T.clen(T.fromcoeffs(t))))
        each(c, "prover: folded witness", b, fold_wit(r, fw1, fw2, t), o, FW, val=tup(o.val, 0), assume=And(asm, fits))
        each(c, "prover: folded instance", b, fold_inst(r, fi1, fi2, ct), o, FI, val=tup(o.val, 1), assume=And(asm, fits))
    c.guard("prover", f)


class Fold:
    """one run of the folding prover, and the challenges it derives for the given instances and cross-term commitment"""

    def __init__(self, c, fi1, fi2, ct, k, start=None):
        self.c, self.k = c, k
        w = k.w
        b = c.body(NIFS + "prover")
        a = w.params(b, {}, ["r1cs", "fw1", "fw2", "q1", "q2", "scheme", "tr"])
        a[3], a[4], a[5] = fi1, fi2, k.scheme
        if start is not None:
            w.I.store(a[6], start)
        self.tr = a[6]
        o = w.call(b, a)
        if o.ok is FALSE:
            raise Missing("folding prover always refuses")
        self.mp = {pt(tup(o.val, 2)): pt(w.I.val(ct))}
        self.r = self.clean(tup(o.val, 3))

    def clean(self, t, also=()):
        """the term with the prover's cross-term commitment replaced by the one given; it must not depend on the witnesses"""
        t = T.subst(t, self.mp)
        for x in subterms(t):
            if x.op == "param" and x.args[0].split(".")[0] in ("fw1", "fw2", "r1cs") + tuple(also):
                raise Missing("a challenge not determined by the public values (%s)" % x.args[0])
        return t

    def point(self, fi3):
        """the opening point the prover derives next, for a folded instance"""
        w = self.k.w
        b = self.c.body(NIFS + "prove")
        a = w.params(b, {}, ["r", "fw3", "q3", "scheme", "tr"])
        a[2], a[3], a[4] = fi3, self.k.scheme, w.I.temp(w.I.val(self.tr))
        return self.clean(P(w.value(b, a), NP, "opening_point"), ("fw3",))


def nifs_conditions(c, k, pf, fi3, r, op, at=None):
    """at: the opening point used for the openings, the derived one or, equivalently, the stated one"""
    cond = lambda o, cm: pairing_ok(k, pt(cm), op if at is None else at, proj(o, OPEN, None, "1"), proj(o, OPEN, None, "0"))
    return [
        ("the folding challenge is the derived one", eq(P(pf, NP, "r"), r), {"r": 0}),
        ("the opening point is the derived one", eq(P(pf, NP, "opening_point"), op), {"opening_point": 0}),
        ("the witness opening verifies", cond(P(pf, NP, "opening_w"), P(fi3, FI, "com_w")), {"opening_w": 0, "com_w": 1}),
        ("the error opening verifies", cond(P(pf, NP, "opening_e"), P(fi3, FI, "com_e")), {"opening_e": 0, "com_e": 1}),
    ]


@prop("N02", "verify accepts iff the stated challenges are the ones the prover derives from the same transcript, instances and cross-term commitment, and both openings of "
      "the folded instance verify at the derived point; honest proofs are accepted; the circuit folds with the prover's challenge")
def N02(c):
    def f():
        k = KZG(c)
        w = k.w
        b = c.body(NIFS + "verify")
        pf, fi1, fi2, fi3, ct, sch, tr = a = w.params(b, {}, ["pf", "fi1", "fi2", "fi3", "com_t", "scheme", "tr"])
        a[5] = k.scheme
        o = w.call(b, a)
        fo = Fold(c, fi1, fi2, ct, k)
        op = fo.point(fi3)
        c.accepts("verify", b, nifs_conditions(c, k, pf, fi3, fo.r, op), o)
        conj = nifs_conditions(c, k, pf, fi3, fo.r, op, P(pf, NP, "opening_point"))
        c.accepts("verify (openings at the stated point)", b, conj, o, only=[1])
    c.guard("verify", f)

    def f():
        w = c.world()
        nb = c.body("kzg::srs::Srs::new_from_secret")
        s, n = w.params(nb, {}, ["s", "n"])
        srs = w.value(nb, [s, n])
        sch = w.value(c.body("kzg::scheme::KzgScheme::new"), [srs])
        pb, qb, vb, fb = [c.body(NIFS + x) for x in ("prover", "prove", "verify", "verifier")]
        cb = c.body(FW + "::commit")
        r1, fw1, fw2, q1, q2, _, tr = w.params(pb, {}, ["r1cs", "fw1", "fw2", "fi1", "fi2", "scheme", "tr"])
        fis = []
        for fw, q in ((fw1, q1), (fw2, q2)):
            v = w.value(cb, [fw, sch, P(q, FI, "x")])
            d = inst(v)
            d["u"] = P(q, FI, "u")
            fis.append(build(FI, d))
        o = w.call(pb, [r1, fw1, fw2, fis[0], fis[1], sch, tr])
        oks = [o.ok]
        fw3, fi3, ct, r = [tup(o.val, i) for i in range(4)]
        o2 = w.call(qb, [r, fw3, fi3, sch, tr])
        oks.append(o2.ok)
        u3 = w.value(fb, [r, fis[0], fis[1], ct])
        tr2 = w.params(pb, {}, ["r1cs", "fw1", "fw2", "fi1", "fi2", "scheme", "tr"])[6]
        o3 = w.call(vb, [o2.val, fis[0], fis[1], u3, ct, sch, tr2])
        acc = ite(o3.ok, T.isvariant(o3.val, "Result", "Ok"), FALSE)
        A, B, C = mats(r1)
        ln = lambda v: add(add(length(P(fw1, FW, "w")), length(P(v, FI, "x"))), ONE)
        asm = And(*oks, same_dims(fis[0], fis[1], fw1, fw2), eq(length(P(fw1, FW, "e")), length(A)), shaped(A, B, C, ln(fis[0])))
        c.same("honest folding proofs verify", vb, TRUE, (acc, []), asm, n=24)
    c.guard("honest proofs", f)

    def f():
        r = circuit_run(c)
        c.same("the circuit folds with the prover's challenge", r["b"], T.ok(r["late"]), outcome_of(r), And(r["all"], r["dims"]))
    c.guard("circuit", f)


def next_state(S, wi):
    """F(z_i, w_i) for the user's function"""
    r = T.uf("ext", "FCircuit::run", S("f_circuit"), S("z_i"), wi)
    return adt(ST, None, [("state", proj(r, ST, None, "state"))])


def circuit_run(c):
    """one run of the augmented circuit on an arbitrary state and arbitrary inputs"""
    k = KZG(c)
    w = k.w
    b = c.body(CIR + "::run")
    me, u, U, wi, ct = a = w.params(b, {}, ["self", "u", "U", "w", "com_t"])
    s0 = w.I.M.deref_all(w.I, w.I.val(me))
    S = lambda n: P(s0, CIR, n)
    dm = w.params(c.body(NIFS + "verifier"), {}, ["r", "dummy1", "dummy2", "dummyt"])
    Uv = shaped_like(w, U, dm[1])
    ctv = shaped_like(w, ct, dm[3])
    fo = Fold(c, u, Uv, ctv, k, start=w.I.val(empty(c, w, TRN)))
    nx = next_state(S, w.I.val(wi))
    sp = Spec(c, w)
    hb = CIR + "::hash_io"
    early = sp.val(sp.call(hb, ONE, S("z_0"), nx, S("trivial_instance")))
    late = sp.val(sp.call(hb, add(S("i"), ONE), S("z_0"), nx, build(FI, fold_inst(fo.r, u, Uv, ctv))))
    o = w.call(b, a)
    post = w.I.M.deref_all(w.I, w.I.val(me))
    h = proj(S("h_i"), "Option", "Some", "0")
    D = inst(u)
    isz = eq(S("i"), ZERO)
    conj = [
        ("the running instance is present", T.isvariant(U, "Option", "Some"), {"U": 0}),
        ("the cross-term commitment is present", T.isvariant(ct, "Option", "Some"), {"com_t": 0}),
        ("the stored hash is present", T.isvariant(S("h_i"), "Option", "Some"), {"h_i": 0}),
        ("the fresh instance has one public input", eq(length(D["x"]), ONE), {"x": 0}),
        ("the public input is the stored hash", T.forall(length(D["x"]), lambda i: eq(idx(D["x"], i), h)), {"x": 0}),
        ("the error commitment is the trivial one", eq(pt(D["com_e"]), pt(P(S("trivial_instance"), FI, "com_e"))), {"com_e": 0}),
        ("the scalar is one", eq(D["u"], ONE), {"u": 0}),
        ("the step is not the first", Not(isz), {"i": 0}),
    ]
    return dict(k=k, w=w, b=b, a=a, o=o, post=post, s0=s0, conj=conj, all=And(*[x[1] for x in conj]), first=isz, next=nx, late=late, early=early,
                dims=eq(length(D["x"]), length(P(Uv, FI, "x"))))


def shaped_like(w, opt, like):
    """the content of an arbitrary optional value, written with the constructor of its type"""
    v = proj(opt, "Option", "Some", "0")
    like = w.I.val(like)

    def go(t, v):
        if t.op != "adt":
            return v
        return adt(t.args[0], t.args[1], [(n, go(x, proj(v, t.args[0], t.args[1], n))) for n, x in t.args[2]])
    return go(like, v)


def stepped(r, **kw):
    """the circuit's state with the named fields replaced"""
    d = dict(r["s0"].args[2])
    d.update(kw)
    return d


def outcome_of(r):
    return (ite(r["o"].ok, r["o"].val, PANIC), [p[0] for p in r["o"].soft])


@prop("N03", "step 0 returns hash(1, z0, F(z0, w), trivial); step i > 0 is Ok iff U, com_T, h_i are present, u.x = [h_i], u.com_E is the trivial one and u.u = 1, and then returns "
      "hash(i+1, z0, F(z_i, w), fold(r, u, U)); a step stores that hash and F(z_i, w) and nothing else, a refused step nothing")
def N03(c):
    def f():
        r = circuit_run(c)
        got = outcome_of(r)
        c.same("step 0 returns the hash over the trivial instance", r["b"], T.ok(r["early"]), got, r["first"])
        n = len(r["conj"])
        c.accepts("step i > 0", r["b"], r["conj"], r["o"], only=range(n - 1))
        c.same("step i > 0 returns the hash over the folded instance", r["b"], T.ok(r["late"]), got, And(r["all"], r["dims"]))
        good = ite(r["first"], TRUE, r["all"])
        post = lambda n: (ite(r["o"].ok, P(r["post"], CIR, n), PANIC), got[1])
        isok = ite(r["o"].ok, T.isvariant(r["o"].val, "Result", "Ok"), FALSE)
        for n, v in r["s0"].args[2]:
            if n in ("z_i1", "h_i1"):
                c.same("a refused step keeps %s" % n, r["b"], v, (ite(r["o"].ok, P(r["post"], CIR, n), v), []), And(Not(isok), Not(r["first"])))
            elif not n.startswith("phantom"):
                c.same("a step keeps %s" % n, r["b"], v, (ite(r["o"].ok, P(r["post"], CIR, n), v), []))
        c.same("step 0 stores its hash", r["b"], T.some(r["early"]), post("h_i1"), r["first"])
        c.same("step 0 stores the next state", r["b"], T.some(r["next"]), post("z_i1"), r["first"])
        asm = And(r["all"], r["dims"])
        c.same("step i > 0 stores its hash", r["b"], T.some(r["late"]), post("h_i1"), asm)
        c.same("step i > 0 stores the next state", r["b"], T.some(r["next"]), post("z_i1"), asm)
    c.guard("run", f)


def ivc(c):
    """an arbitrary recursion with a scheme over an arbitrary SRS"""
    k = KZG(c)
    w = k.w
    b = c.body(IV + "::verify")
    me, pf, tr = w.params(b, {}, ["self", "proof", "tr"])
    d = dict(w.I.M.deref_all(w.I, w.I.val(me)).args[2])
    d["scheme"] = k.scheme
    v = build(IV, d)
    return k, w, b, v, w.I.temp(v), pf, tr


@prop("N04", "step 0: Ok iff z0 = z_i; step i > 0: Ok iff com_T and the folding proof are present, u.x = [hash(i, z0, z_i, U)], u.com_E is the trivial one, u.u = 1, the stated "
      "challenges are the derived ones and both openings verify against fold(r, u, U)")
def N04(c):
    def f():
        k, w, b, v, me, pf, tr = ivc(c)
        C = lambda n: P(P(v, IV, "augmented_circuit"), CIR, n)
        u, U = P(pf, ZK, "u_i"), P(pf, ZK, "big_u_i")
        cto, pfo = P(pf, ZK, "com_t"), P(pf, ZK, "folded_u_proof")
        dm = w.params(c.body(NIFS + "verify"), {}, ["dummyp", "d1", "d2", "d3", "dummyt"])
        ct, np = shaped_like(w, cto, dm[4]), shaped_like(w, pfo, dm[0])
        fo = Fold(c, u, U, ct, k, start=w.I.val(tr))
        sp = Spec(c, w)
        h = sp.val(sp.call(CIR + "::hash_io", C("i"), C("z_0"), C("z_i"), U))
        f3 = build(FI, fold_inst(P(np, NP, "r"), u, U, ct))
        op = fo.point(f3)
        o = w.call(b, [me, pf, tr])
        D = inst(u)
        isz = eq(C("i"), ZERO)
        conj = [
            ("the cross-term commitment is present", T.isvariant(cto, "Option", "Some"), {"com_t": 0}),
            ("the folding proof is present", T.isvariant(pfo, "Option", "Some"), {"folded_u_proof": 0}),
            ("the fresh instance has one public input", eq(length(D["x"]), ONE), {"x": 0}),
            ("the public input is the hash of step, states and running instance", T.forall(length(D["x"]), lambda i: eq(idx(D["x"], i), h)), {"x": 0}),
            ("the error commitment is the trivial one", eq(pt(D["com_e"]), pt(P(C("trivial_instance"), FI, "com_e"))), {"com_e": 0, "trivial_instance": 1}),
            ("the scalar is one", eq(D["u"], ONE), {"u": 0}),
            ("the step is not the first", Not(isz), {"i": 0}),
        ] + nifs_conditions(c, k, np, f3, fo.r, op)
        c.accepts("verify after step 0", b, conj, o, only=[i for i in range(len(conj)) if i != 6])
        conj[7:] = nifs_conditions(c, k, np, f3, fo.r, op, P(np, NP, "opening_point"))
        c.accepts("verify after step 0 (openings at the stated point)", b, conj, o, only=[8])
        f3 = build(FI, fold_inst(fo.r, u, U, ct))
        conj[7:] = nifs_conditions(c, k, np, f3, fo.r, fo.point(f3))
        c.accepts("verify after step 0 (folded with the derived challenge)", b, conj, o, only=[7])
        z0, zi = P(C("z_0"), ST, "state"), P(C("z_i"), ST, "state")
        acc = ite(o.ok, T.isvariant(o.val, "Result", "Ok"), PANIC)
        c.same("verify at step 0", b, eq(z0, zi), (acc, []), isz)
    c.guard("verify", f)


@prop("N05", "hash_io(i, z0, z_i, U) reads the hash of a byte string made of one complete encoding each of i, z0, z_i, U.com_E, U.u, U.com_W and every U.x[k], and nothing else")
def N05(c):
    def f():
        w = c.world()
        b = c.body(CIR + "::hash_io")
        a = w.params(b, {}, ["i", "z0", "zi", "U"])
        o = w.call(b, a)
        D = inst(a[3])
        c.rule("hash_io never refuses", b, all(p[0] is FALSE for p in o.panics), "panic condition %s" % T.show(o.panic), "every input is hashed")
        hs = [t for t in subterms(o.val) if t.op == "hash"]
        ok = len(hs) == 1
        c.rule("hash_io is one hash", b, ok if hs else False, "%d hashes in %s" % (len(hs), T.show(o.val)[:200]))
        if not ok:
            return
        whole = o.val.op == "lemod" and o.val.args[0] is hs[0]
        items = [("i", a[0]), ("z0", P(a[1], ST, "state")), ("zi", P(a[2], ST, "state")), ("U.com_e", pt(D["com_e"])), ("U.u", D["u"]), ("U.com_w", pt(D["com_w"]))]
        bad = bindings(hs[0], items, D["x"], o.val)
        if bad is None:
            c.rule("hash_io covers every component once", b, None, "hashed bytes not recognised: %s" % T.show(hs[0].args[-1]))
        for n, verdict, why in bad or []:
            c.rule("hash_io covers %s" % n, b, verdict, why, "the hashed bytes contain one complete encoding of each component")
        for n, t in items + [("U.x", D["x"])]:
            ok, why = sensitive(o.val, t)
            c.rule("hash_io changes with %s" % n, b, ok, why.replace("challenge", "hash"), "interpretations that differ in that component only, or in the order of its entries, give different hashes")
        c.rule("hash_io returns the whole hash", b, True if whole else covers(o.val, hs[0]), "result: %s" % T.show(o.val)[:200], "the result is the little-endian number of all bytes of the hash")
    c.guard("hash_io", f)


def covers(v, h):
    return False if any(x.op == "slice" and T.contains(x, h) for x in subterms(v)) else None


def bindings(h, items, xs, v):
    """evaluates the hashed bytes with marked encodings and looks for each component's complete encoding"""
    out = []
    n = 3
    E = Probe(5)
    E.set(RI.free_key(E, length(xs), {}), n)
    try:
        d = E.ev(h.args[-1], {})
    except RI.Und:
        return None
    if not isinstance(d, tuple):
        return None
    encs = {}
    for nm, t in items + [("U.x[%d]" % j, idx(xs, num(j))) for j in range(n)]:
        e = encodings(E, None, t)
        if not e:
            return None
        hit = [x for x in e if contiguous(d, x)]
        out.append((nm, bool(hit), "complete encoding of %d bytes found" % len(hit[0]) if hit else "no complete encoding of %s among the %d hashed bytes" % (nm, len(d))))
        encs[nm] = hit[0] if hit else ()
    total = sum(len(x) for x in encs.values())
    if all(o[1] for o in out):
        out.append(("nothing else", total == len(d), "%d bytes hashed, %d of them encodings of the components" % (len(d), total)))
    return out


@prop("N06", "is_r1cs_satisfied is Ok iff #W = num_vars, #x = num_io, #E = rows, Az_i * Bz_i = u*Cz_i + E_i in every row for z = (W, x, u), and both commitments are those of W and E")
def N06(c):
    def f():
        k = KZG(c)
        w = k.w
        b = c.body("nova::r1cs::is_r1cs_satisfied")
        r1, fi, fw, _ = a = w.params(b, {}, ["r1cs", "fi", "fw", "scheme"])
        a[3] = k.scheme
        o = w.call(b, a)
        A, B, C = mats(r1)
        D = inst(fi)
        W, E = P(fw, FW, "w"), P(fw, FW, "e")
        z = zvec(W, D["x"], D["u"])
        comm = lambda v: T.summ(length(v), lambda i: mul(idx(v, i), idx(k.G, i)))
        G = length(k.G)
        conj = [
            ("the matrices are well-formed", shaped(A, B, C, length(z)), {"matrix_a": 0, "matrix_b": 0, "matrix_c": 0}),
            ("the witness has the declared length", eq(P(r1, R1, "num_vars"), length(W)), {"num_vars": 0}),
            ("the public input has the declared length", eq(P(r1, R1, "num_io"), length(D["x"])), {"num_io": 0}),
            ("there is one error entry per row", eq(length(E), length(A)), {"e": 0}),
            ("every row holds", T.forall(length(A), lambda i: eq(mul(mv(A, z, i), mv(B, z, i)), add(mul(D["u"], mv(C, z, i)), idx(E, i)))), [{"e": 0}, {"matrix_c": 0}]),
            ("the witness commitment is that of W", eq(pt(D["com_w"]), comm(W)), {"com_w": 0}),
            ("the error commitment is that of E", eq(pt(D["com_e"]), comm(E)), {"com_e": 0}),
            ("the reference string is long enough", And(ge(G, length(W)), ge(G, length(E)), k.nonempty), {"g1_points": 0}),
        ]
        acc = ite(o.ok, T.isvariant(o.val, "Result", "Ok"), FALSE)
        c.accepts("is_r1cs_satisfied", b, conj, (acc, []), only=range(1, 7), panics=True)

        def g(E, i):
            r = E.rnd("instance")
            rows, nw, nx = r.randint(1, 4), r.randint(1, 3), r.randint(0, 2)
            some = lambda: r.choice([0, 0, 1, RI.M - 1, r.randrange(RI.M)])
            vec = lambda n, zero=False: [0 if zero else some() for _ in range(n)]
            ws, xs = vec(nw, r.random() < 0.2), vec(nx, r.random() < 0.2)
            u = r.choice([0, 1, 1, r.randrange(RI.M)])
            z = ws + xs + [u]
            ms = [[vec(len(z), r.random() < 0.2) for _ in range(rows)] for _ in range(3)]
            if i % 2:
                ms[2 if i % 4 == 1 else 0] = [vec(len(z), True) for _ in range(rows)]
            dot = lambda m, j: sum(p * q for p, q in zip(m[j], z)) % RI.M
            e = [(dot(ms[0], j) * dot(ms[1], j) - u * dot(ms[2], j)) % RI.M for j in range(rows)]
            if i % 4 == 3:      # strict satisfaction: no error
                ms[1] = ms[2] = [vec(len(z), True) for _ in range(rows)]
                e = [0] * rows
            s = r.randrange(2, RI.M)
            n = max(rows, nw)
            put = lambda t, v: choose(E, t, v)
            put(length(k.G), n)
            for j in range(n):
                put(idx(k.G, num(j)), pow(s, j, RI.M))
            cw, ce = [sum(v * pow(s, j, RI.M) for j, v in enumerate(y)) % RI.M for y in (ws, e)]
            fail = i // 4 % 5
            d = r.choice([1, RI.M - 1, r.randrange(1, RI.M)])
            what = "a satisfied instance is refused"
            if fail == 1:
                what, cw = "a wrong witness commitment is accepted", (cw + d) % RI.M
            if fail == 2:
                what, ce = "a wrong error commitment is accepted", (ce + d) % RI.M
            if fail in (3, 4):
                j = r.randrange(rows) if fail == 3 else rows - 1
                e[j] = (e[j] + d) % RI.M
                what, ce = "an unsatisfied row is accepted", (ce + d * pow(s, j, RI.M)) % RI.M
            for t, m in zip((A, B, C), ms):
                put(length(t), rows)
                for a_ in range(rows):
                    put(length(idx(t, num(a_))), len(z))
                    for b_ in range(len(z)):
                        put(idx(idx(t, num(a_)), num(b_)), m[a_][b_])
            for t, v in ((W, ws), (D["x"], xs), (E_, e)):
                put(length(t), len(v))
                for j, y in enumerate(v):
                    put(idx(t, num(j)), y)
            for t, v in ((D["u"], u), (pt(D["com_w"]), cw), (pt(D["com_e"]), ce), (P(r1, R1, "num_vars"), nw), (P(r1, R1, "num_io"), nx)):
                put(t, v)
            return [(what, E.bool(acc) == (fail == 0))]
        E_ = P(fw, FW, "e")
        trial(c, "particular instances", b, "acceptance on instances that satisfy every condition, or all but one, including zero vectors, zero matrices and unit scalars", g, n=60)
    c.guard("is_r1cs_satisfied", f)


@prop("N07", "the folding challenge of prover and circuit changes with each of com_E, u, com_W and every entry of x of either instance and with com_T")
def N07(c):
    def dep(what, b, k, fi1, fi2, ct, r, xs):
        w = k.w
        comps = []
        for nm, fi in (("first", fi1), ("second", fi2)):
            D = inst(w.I.val(fi))
            comps += [("com_e of the %s instance" % nm, pt(D["com_e"])), ("u of the %s instance" % nm, D["u"]), ("com_w of the %s instance" % nm, pt(D["com_w"])),
                      ("x of the %s instance" % nm, D["x"])]
        comps.append(("the cross-term commitment", pt(w.I.val(ct))))
        for nm, t in comps:
            ok, why = sensitive(r, t)
            c.rule("%s: %s" % (what, nm), b, ok, why, "interpretations that differ in that component only give different challenges")

    def f():
        k = KZG(c)
        w = k.w
        b = c.body(NIFS + "prover")
        vb = c.body(NIFS + "verifier")
        r_, fi1, fi2, ct = w.params(vb, {}, ["r", "fi1", "fi2", "com_t"])
        fo = Fold(c, fi1, fi2, ct, k)
        dep("prover", b, k, fi1, fi2, ct, fo.r, None)
    c.guard("prover", f)


def sensitive(r, t):
    """does the value of r change when only t changes?"""
    seq = T.is_seq(t) or (t.ty or {}).get("p", "").endswith("Vec") or t.op == "proj" and T.is_seq_ty(t.ty)
    subs = [idx(t, num(j)) for j in range(2)] if seq else [t]
    pairs = [(None, 1), (None, 1), (None, 10 ** 12), (0, 1), (0, None), (1, 1), (RI.M - 1, 1), (5, RI.M - 10), (10 ** 30, RI.M - 2 * 10 ** 30), (7, 1 << 64), (7, 1 << 128)]
    for s in subs:
        done = 0
        for seed, (base, delta) in enumerate(pairs):
            vals = []
            try:
                E0 = RI.Env((seed, 7))
                if seq:
                    E0.set(RI.free_key(E0, length(t), {}), 2)
                v0 = E0.ev(s, {})
                v0 = base if base is not None else v0 if isinstance(v0, int) else RI.hh("sens", seed) % RI.M
                for v in (v0, (v0 + delta) % RI.M if delta else RI.hh("other", seed) % RI.M):
                    E = RI.Env((seed, 7))
                    if seq:
                        E.set(RI.free_key(E, length(t), {}), 2)
                    E.set(RI.free_key(E, s, {}), v)
                    vals.append(RI.settle(E, r)[1])
            except (RI.Und, RI.Oob):
                continue
            done += 1
            if vals[0] == vals[1]:
                return False, "the challenge is the same for two values of %s%s" % (T.show(s), " (one of them is %d)" % base if base in (0, 1) else "")
        if not done:
            return None, "not evaluated"
    if seq:
        lists = [([0, 5], [5, 0]), ([7, 5], [5, 7]), ([5], [5, 0]), ([], [0]), ([5, 0], [5, 0, 0]), ([3, 3], [3])]
        for seed, two in enumerate(lists):
            vals = []
            try:
                for l in two:
                    E = RI.Env((seed, 11))
                    E.set(RI.free_key(E, length(t), {}), len(l))
                    for j, v in enumerate(l):
                        E.set(RI.free_key(E, idx(t, num(j)), {}), v)
                    vals.append(RI.settle(E, r)[1])
            except (RI.Und, RI.Oob):
                continue
            if vals[0] == vals[1]:
                return False, "the challenge is the same for %s = %s and %s" % (T.show(t), two[0], two[1])
    return True, "the challenge changes with it"


@prop("N08", "new(F, trivial, z0) starts at step 0 with z_i = z0 and nothing pending; next_step refuses without a pending state, else sets z_i := z_{i+1}, h_i := h_{i+1}, i := i+1 and "
      "clears both pending values, keeping everything else")
def N08(c):
    def f():
        w = c.world()
        b = c.body(CIR + "::new")
        fc, tr, z0 = a = w.params(b, {}, ["f", "trivial", "z0"])
        o = w.call(b, a)
        none = T.NONE
        each(c, "new", b, dict(f_circuit=w.I.val(fc), i=ZERO, trivial_instance=w.I.val(tr), z_0=w.I.val(z0), z_i=w.I.val(z0), z_i1=none, h_i=none, h_i1=none), o, CIR)
    c.guard("new", f)

    def f():
        w = c.world()
        b = c.body(CIR + "::next_step")
        me, = w.params(b, {}, ["self"])
        s0 = w.I.M.deref_all(w.I, w.I.val(me))
        S = lambda n: P(s0, CIR, n)
        o = w.call(b, [me])
        post = w.I.M.deref_all(w.I, w.I.val(me))
        have = T.isvariant(S("z_i1"), "Option", "Some")
        c.same("next_step requires a pending state", b, have, (ite(o.ok, TRUE, FALSE), []))
        spec = {n: v for n, v in s0.args[2] if not n.startswith("phantom")}
        nz = proj(S("z_i1"), "Option", "Some", "0")
        spec.update(z_i=proj(nz, ST, None, "state"), z_i1=T.NONE, i=add(S("i"), ONE), h_i=S("h_i1"), h_i1=T.NONE)
        for n, v in spec.items():
            got = P(post, CIR, n)
            c.same("next_step.%s" % n, b, v, (ite(o.ok, P(got, ST, "state") if n == "z_i" else got, PANIC), []), have)
    c.guard("next_step", f)


@prop("N09", "matrix-vector, element-wise, scaled, added and subtracted vectors hold the named operation in every entry; vec_equal is false for different lengths, addition and "
      "subtraction refuse them; new witnesses have E = 0, trivial pairs are all zero, commit gives u = 1, both commitments and x")
def N09(c):
    U = "nova::utils::"

    def helper(nm, spec, names):
        def f():
            w = c.world()
            b = c.body(U + nm)
            a = w.params(b, {}, names)
            s, asm = spec(*[w.I.val(x) for x in a])
            c.same(nm, b, s, w.call(b, a), asm)
        c.guard(nm, f)
    sl = lambda a, b: eq(length(a), length(b))
    pw = lambda op: lambda a, b: tab(length(a), lambda i: op(idx(a, i), idx(b, i)))
    helper("matrix_vector_product", lambda m, z: (tab(length(m), lambda i: mv(m, z, i)), T.forall(length(m), lambda i: eq(length(idx(m, i)), length(z)))), ["m", "z"])
    helper("hadamard_product", lambda a, b: (pw(mul)(a, b), sl(a, b)), ["a", "b"])
    helper("vector_elem_product", lambda a, u: (tab(length(a), lambda i: mul(idx(a, i), u)), TRUE), ["a", "u"])
    helper("vec_add", lambda a, b: (ite(sl(a, b), pw(add)(a, b), PANIC), TRUE), ["a", "b"])
    helper("vec_sub", lambda a, b: (ite(sl(a, b), pw(sub)(a, b), PANIC), TRUE), ["a", "b"])
    helper("vec_equal", lambda a, b: (And(sl(a, b), T.forall(length(a), lambda i: eq(idx(a, i), idx(b, i)))), TRUE), ["a", "b"])
    helper("to_f_vec", lambda z: (tab(length(z), lambda i: idx(z, i)), TRUE), ["z"])
    helper("to_f_matrix", lambda m: (tab(length(m), lambda i: tab(length(idx(m, i)), lambda j: idx(idx(m, i), j))), TRUE), ["m"])

    def f():
        w = c.world()
        b = c.body(FW + "::new")
        v, n = a = w.params(b, {}, ["w", "len"])
        each(c, "FWitness::new", b, dict(e=tab(n, lambda i: ZERO), w=v), w.call(b, a), FW)
        b = c.body(FW + "::new_trivial_witness")
        n, = a = w.params(b, {}, ["len"])
        each(c, "new_trivial_witness", b, dict(e=tab(n, lambda i: ZERO), w=tab(n, lambda i: ZERO)), w.call(b, a), FW)
    c.guard("witness constructors", f)

    def f():
        k = KZG(c)
        w = k.w
        b = c.body(FW + "::commit")
        fw, _, x = a = w.params(b, {}, ["fw", "scheme", "x"])
        a[1] = k.scheme
        E, W = T.fromcoeffs(P(fw, FW, "e")), T.fromcoeffs(P(fw, FW, "w"))
        fits = And(ge(length(k.G), T.clen(E)), ge(length(k.G), T.clen(W)))
        o = w.call(b, a)
        g = lambda p: com(T.summ(T.clen(p), lambda i: mul(T.pcoeff(p, i), idx(k.G, i))))
        c.same("commit refuses what does not fit the reference string", b, fits, (ite(o.ok, TRUE, FALSE), []), k.nonempty)
        each(c, "commit", b, dict(com_e=g(E), u=ONE, com_w=g(W), x=x), o, FI, assume=And(fits, k.nonempty))
    c.guard("commit", f)

    def f():
        k = KZG(c)
        w = k.w
        b = c.body("nova::r1cs::create_trivial_pair")
        xl, wl, _ = a = w.params(b, {}, ["x_len", "w_len", "scheme"])
        a[2] = k.scheme
        o = w.call(b, a)
        zs = lambda n: tab(n, lambda i: ZERO)
        each(c, "trivial witness", b, dict(e=zs(wl), w=zs(wl)), o, FW, val=tup(o.val, 0), assume=k.nonempty)
        each(c, "trivial instance", b, dict(com_e=com(ZERO), u=ONE, com_w=com(ZERO), x=zs(xl)), o, FI, val=tup(o.val, 1), assume=k.nonempty)
    c.guard("trivial pair", f)


@prop("N10", "step i > 0: prove = (W', U', (u, U, com_T, pi)) with (W', U', com_T, r) = NIFS::prover(u, U) and pi = NIFS::prove(r, W', U') on the same transcript; step 0: the running pair, "
      "the unmodified instances and no proof; constructors copy their arguments into the fields they name")
def N10(c):
    def f():
        k, w, _, v, me, _, _ = ivc(c)
        b = c.body(IV + "::prove")
        _, r1, ip, tr = w.params(b, {}, ["self", "r1cs", "proof", "tr"])
        t0 = w.I.val(tr)
        o = w.call(b, [v, r1, ip, tr])
        post = w.I.M.deref_all(w.I, w.I.val(tr))
        I = lambda n: P(ip, IVP, n)
        isz = eq(P(P(v, IV, "augmented_circuit"), CIR, "i"), ZERO)
        g = lambda t: (ite(o.ok, t, PANIC), [p[0] for p in o.soft])
        zk = tup(o.val, 2)
        none = T.NONE
        first = [("W", tup(o.val, 0), I("big_w_i")), ("U", tup(o.val, 1), I("big_u_i")), ("proof.u_i", P(zk, ZK, "u_i"), I("u_i")), ("proof.big_u_i", P(zk, ZK, "big_u_i"), I("big_u_i")),
                 ("proof.com_t", P(zk, ZK, "com_t"), none), ("proof.folded_u_proof", P(zk, ZK, "folded_u_proof"), none)]
        for n, got, s in first:
            c.same("step 0: %s" % n, b, s, g(got), isz)
        # the prescribed program
        t2 = w.I.temp(t0)
        o1 = w.call(c.body(NIFS + "prover"), [r1, I("w_i"), I("big_w_i"), I("u_i"), I("big_u_i"), k.scheme, t2])
        W, U, ct, r = [tup(o1.val, i) for i in range(4)]
        o2 = w.call(c.body(NIFS + "prove"), [r, W, U, k.scheme, t2])
        A, B, C = mats(r1)
        ln = add(add(length(P(I("w_i"), FW, "w")), length(P(I("u_i"), FI, "x"))), ONE)
        asm = And(Not(isz), o1.ok, o2.ok, k.nonempty, same_dims(I("u_i"), I("big_u_i"), I("w_i"), I("big_w_i")), eq(length(P(I("w_i"), FW, "e")), length(A)), shaped(A, B, C, ln))
        pf = proj(P(zk, ZK, "folded_u_proof"), "Option", "Some", "0")
        late = [("proof.u_i", P(zk, ZK, "u_i"), I("u_i")), ("proof.big_u_i", P(zk, ZK, "big_u_i"), I("big_u_i")), ("proof.com_t", P(zk, ZK, "com_t"), T.some(ct)),
                ("a folding proof is included", T.isvariant(P(zk, ZK, "folded_u_proof"), "Option", "Some"), TRUE)]
        late += [("W.%s" % n, P(tup(o.val, 0), FW, n), P(W, FW, n)) for n in ("e", "w")]
        late += [("U.%s" % n, P(tup(o.val, 1), FI, n), P(U, FI, n)) for n in ("com_e", "u", "com_w", "x")]
        late += [("proof.folding.%s" % n, P(pf, NP, n), P(o2.val, NP, n)) for n in ("r", "opening_point", "opening_e", "opening_w")]
        for n, got, s in late:
            c.same("step i > 0: %s" % n, b, s, g(got), asm, n=None if c.thorough else 20)
        pt2 = w.I.M.deref_all(w.I, w.I.val(t2))
        for n in ("data", "generated"):
            x = lambda t: P(t, "nova::transcript::Transcript", n)
            c.same("step 0: the transcript keeps its %s" % n, b, x(w.I.M.deref_all(w.I, t0)), g(x(post)), isz)
            c.same("step i > 0: transcript.%s afterwards" % n, b, x(pt2), g(x(post)), asm, n=None if c.thorough else 20)
    c.guard("prove", f)

    def f():
        k = KZG(c)
        w = k.w
        b = c.body(NIFS + "prove")
        r, fw, fi, _, tr = a = w.params(b, {}, ["r", "fw", "fi", "scheme", "tr"])
        a[3] = k.scheme
        o = w.call(b, a)
        op = P(o.val, NP, "opening_point")
        ob = c.body("kzg::scheme::KzgScheme::open_vector")
        soft = [p[0] for p in o.soft]
        c.same("folding proof names the challenge", b, w.I.val(r), (P(o.val, NP, "r"), soft))
        for n, v in (("opening_e", P(fw, FW, "e")), ("opening_w", P(fw, FW, "w"))):
            oo = w.call(ob, [k.scheme, v, op])
            c.same("folding proof: %s" % n, b, oo.val, (P(o.val, NP, n), soft), And(o.ok, oo.ok, k.nonempty))
    c.guard("folding proof", f)

    def f():
        w = c.world()
        b = c.body(IVP + "::new")
        a = w.params(b, {}, ["u", "w", "U", "W"])
        v = [w.I.val(x) for x in a]
        each(c, "IVCProof::new", b, dict(u_i=v[0], w_i=v[1], big_u_i=v[2], big_w_i=v[3]), w.call(b, a), IVP)
        b = c.body(IVP + "::trivial_ivc_proof")
        a = w.params(b, {}, ["u", "w"])
        v = [w.I.val(x) for x in a]
        each(c, "trivial_ivc_proof", b, dict(u_i=v[0], w_i=v[1], big_u_i=v[0], big_w_i=v[1]), w.call(b, a), IVP)
        b = c.body(ZK + "::trivial_zk_ivc_proof")
        a = w.params(b, {}, ["u"])
        v = [w.I.val(x) for x in a]
        each(c, "trivial_zk_ivc_proof", b, dict(u_i=v[0], big_u_i=v[0], com_t=T.NONE, folded_u_proof=T.NONE), w.call(b, a), ZK)
    c.guard("proof constructors", f)
