"""Rules for the PLONK crate (P01-P12)."""
from . import terms as T, rieval as RI
from .terms import raw, num, add, sub, mul, neg, inv, power, idx, length, tab, seqlit, adt, proj, ite, And, Or, Not, eq, ge, lt, TRUE, FALSE, ZERO, ONE, X
from .api import PANIC, Missing, Spec
from .check import prop
from .rieval import M, GEN, Rat, pmul, padd, ptrim
from .props_kzg import KZG, COM, com, subterms, commit_term
from .props_nova import P, pt, tup
from .trials import trial

PROOF = "plonk::prover::Proof"
CC = "plonk::compiled_circuit::CompiledCircuit"
GC = "plonk::constraint::GateConstraints"
CPC = "plonk::constraint::CopyConstraints"
WIT = ("f_ax", "f_bx", "f_cx")
SEL = ("q_lx", "q_rx", "q_ox", "q_mx", "q_cx", "pi_x")
SIG = ("s_sigma_1", "s_sigma_2", "s_sigma_3")
COMS = ("a_commit", "b_commit", "c_commit", "z_commit", "t_lo_commit", "t_mid_commit", "t_hi_commit", "w_ev_x_commit", "w_ev_wx_commit")
BARS = ("bar_a", "bar_b", "bar_c", "bar_s_sigma_1", "bar_s_sigma_2", "bar_z_w")
ROUNDS = ("beta", "gamma", "alpha", "zeta", "v", "u")


class Plonk:
    """an arbitrary compiled circuit, reference string and proof, seen through the public accessors"""

    def __init__(self, c):
        self.c = c
        self.k = KZG(c)
        self.w = w = self.k.w
        self.vb = c.body("plonk::verifier::verify")
        self.pb = c.body("plonk::prover::generate_proof")
        self.cc, _, self.pf = w.params(self.vb, {}, ["cc", "srs", "pf"])
        gates = w.value(c.body(CC + "::gate_constraints"), [self.cc])
        copies = w.value(c.body(CC + "::copy_constraints"), [self.cc])
        g = lambda n: w.I.val(w.value(c.body(GC + "::" + n), [gates]))
        s = lambda n: w.I.val(w.value(c.body(CPC + "::" + n), [copies]))
        self.poly = {n: g(n) for n in WIT + SEL}
        self.poly.update({n: s(n) for n in SIG})
        self.k1, self.k2 = s("k1"), s("k2")
        self.size = P(w.I.val(self.cc), CC, "size")
        self.f = {n: pt(P(self.pf, PROOF, n)) for n in COMS}
        self.f.update({n: P(self.pf, PROOF, n) for n in BARS + ("u", "degree")})
        for n, t in list(self.poly.items()) + [("k1", self.k1), ("k2", self.k2), ("size", self.size)] + list(self.f.items()):
            if t.op != "param":
                raise Missing("%s is not an independent component" % n)

    def verify(self):
        return self.w.call(self.vb, [self.cc, self.k.srs, self.pf])

    def prove(self):
        return self.w.call(self.pb, [self.cc, self.k.srs])

    def challenges(self, t):
        """the challenges drawn by the verifier, in the order of the transcript: role -> term"""
        ds = {}
        for x in subterms(t):
            if x.op == "rand" and x.args[0].op != "entropy":
                ds.setdefault(depth(x), []).append(x)
        gs = [sorted(ds[d], key=lambda x: T.show(x.args[1])) for d in sorted(ds)]
        return gs

    def roles(self, t):
        gs = self.challenges(t)
        if [len(g) for g in gs] != [2, 1, 1, 1, 1]:
            raise Missing("challenge schedule not recognised: draws per round %s" % [len(g) for g in gs])
        return dict(zip(ROUNDS, [x for g in gs for x in g]))


def depth(t):
    """number of nested hash computations"""
    memo = {}

    def go(t):
        if t.fp in memo:
            return memo[t.fp]
        d = max([go(x) for x in T._children(t.args)] or [0]) + (t.op == "hash")
        memo[t.fp] = d
        return d
    return go(t)


# ---------------------------------------------------------------- interpretations
def key(t):
    return ("param", t.args[0])


def preset(E, t, v):
    E.vals[key(t)] = v


def root(n):
    return pow(GEN, (M - 1) // n, M)


def interpolate(vals, n):
    """coefficients of the polynomial with the given values on the n-th roots of unity"""
    w, ni = root(n), pow(n, M - 2, M)
    vals = list(vals) + [0] * (n - len(vals))
    return Rat(ptrim([ni * sum(v * pow(w, -i * j % n, M) for j, v in enumerate(vals)) % M for i in range(n)]))


def at(p, z):
    return RI.peval(p.n, z)


SIZES = (4, 32, 2, 8, 1, 16, 4, 64, 2, 4, 128, 8, 1)


def satisfied(E, pl, sizes=SIZES, wrong=None):
    """values of a random satisfied circuit: selectors, wire values and copy constraints; wrong = gate | copy | shift breaks one of them"""
    r = E.rnd("circuit")
    n = sizes[E.seed[1] % len(sizes)] if isinstance(E.seed, tuple) else r.choice(sizes)
    m = r.randint(n // 2 + 1, n) if n > 1 else 1
    w = root(n)
    k1, k2 = 2, 3
    ks = (1, k1, k2)
    pos = [(c, i) for c in range(3) for i in range(m)]
    r.shuffle(pos)
    val, nxt = {}, {}
    i = 0
    while i < len(pos):
        cls = pos[i:i + r.choice([1, 1, 2, 3, 4])]
        v = r.choice([0, 1, r.randrange(M), r.randrange(M), r.randrange(M)])
        for a, b in zip(cls, cls[1:] + cls[:1]):
            val[a], nxt[a] = v, b
        i += len(cls)
    q = {s: [r.choice([0, 1, M - 1, r.randrange(M), r.randrange(M)]) for _ in range(m)] + [0] * (n - m) for s in SEL}
    if not any(v for s in SEL[:5] for v in q[s]):
        q["q_lx"][0] = 1        # a circuit has at least one gate
    wire = [[val.get((c, i), 0) for i in range(n)] for c in range(3)]
    for i in range(n):
        a, b, c = wire[0][i], wire[1][i], wire[2][i]
        q["pi_x"][i] = -(q["q_lx"][i] * a + q["q_rx"][i] * b + q["q_ox"][i] * c + q["q_mx"][i] * a * b + q["q_cx"][i]) % M
    if wrong == "gate":
        col, d = q[r.choice(["pi_x", "q_cx"])], r.choice([1, M - 1, r.randrange(1, M)])
        how, k = r.choice(["row", "row", "monomial", "monomial", "rows"]), r.randrange(n)
        for i in range(n):
            # one row; every row, so that the error is a single monomial on the domain; some rows
            col[i] = (col[i] + (d if i == k else 0 if how == "row" else d * pow(w, i * k, M) if how == "monomial" else d * r.choice([0, 1]))) % M
    if wrong == "copy":
        a = r.choice(pos)
        others = [p for p in pos if val[p] != val[a]]
        if not others:
            return None
        b = r.choice(others)
        nxt[a], nxt[b] = nxt[b], nxt[a]
    sig = [[ks[nxt[(c, i)][0]] * pow(w, nxt[(c, i)][1], M) % M if (c, i) in nxt else ks[c] * pow(w, i, M) % M for i in range(n)] for c in range(3)]
    for nm, v in list(zip(WIT, wire)) + list(q.items()) + list(zip(SIG, sig)):
        preset(E, pl.poly[nm], interpolate(v, n))
    preset(E, pl.k1, k1)
    preset(E, pl.k2, k2)
    preset(E, pl.size, n)
    return dict(n=n, m=m, w=w, wire=wire, sig=sig, q=q, ks=ks)


def reference(E, k, n, s):
    """the reference string for secret s, with enough powers"""
    preset(E, k.g2, 1)
    preset(E, k.g2s, s)
    g = key(k.G)
    E.vals[("len", g)] = 3 * n + 12
    x = 1
    for i in range(3 * n + 12):
        E.vals[("idx", g, i)] = x
        x = x * s % M


def honest(E, pl, o):
    """the proof the prover returns, as the verifier's argument"""
    pv = E.ev(o.val, {})
    fs = dict(pv[3])
    for n, t in pl.f.items():
        v = fs[n]
        E.set0(key(t), None)
        b = E.bits.get(key(t))
        if b is not None:
            E.memo = {q: w for q, w in E.memo.items() if not w[1] & b}
            E.cc = {q: w for q, w in E.cc.items() if not w[2] & b}
        E.vals[key(t)] = dict(v[3])["0"] if n in COMS else v
    return {n: E.vals[key(t)] for n, t in pl.f.items()}


def secret(E):
    return E.rnd("secret").randrange(2, M)


@prop("P01", "on the proof the prover returns, the verifier's transcript derives the u the proof states, the evaluation point at which its evaluations were taken, the beta and gamma its "
      "accumulator was built with, and the alpha and v of its opening quotients, for an uninterpreted hash T")
def P01(c):
    def f():
        pl = Plonk(c)
        vt = pl.verify().term()
        R = pl.roles(vt)
        o = pl.prove()
        ev = lambda E, n: E.ev(R[n], {})

        def g(E, i):
            d = satisfied(E, pl)
            s = secret(E)
            row = i % d["n"]
            if i % 2:
                s = pow(d["w"], row, M)
            reference(E, pl.k, d["n"], s)
            h = honest(E, pl, o)
            z = ev(E, "zeta")
            out = [("the stated u is not the one the verifier derives", h["u"] == ev(E, "u")),
                   ("bar_s_sigma_1 was not taken at the evaluation point the verifier derives", h["bar_s_sigma_1"] == at(E.vals[key(pl.poly["s_sigma_1"])], z)),
                   ("bar_s_sigma_2 was not taken at the evaluation point the verifier derives", h["bar_s_sigma_2"] == at(E.vals[key(pl.poly["s_sigma_2"])], z))]
            if i % 2:
                out.append(("the accumulator was not built with the beta and gamma the verifier derives", h["z_commit"] == accumulator(d, ev(E, "beta"), ev(E, "gamma"))[row]))
            else:
                ch = {n: ev(E, n) for n in ROUNDS}
                lhs, rhs = opening(E, pl, d, h, ch, s)
                out.append(("the opening quotient was not built with the challenges the verifier derives", lhs == rhs))
            return out
        trial(c, "the verifier derives the prover's challenges", pl.pb, "transcript replay on the prover's own proof", g)
    c.guard("transcript", f)


def accumulator(d, beta, gamma):
    """the permutation accumulator's values on the domain"""
    acc = [1]
    for i in range(d["n"] - 1):
        x = pow(d["w"], i, M)
        nu = de = 1
        for j in range(3):
            nu = nu * (d["wire"][j][i] + beta * d["ks"][j] * x + gamma) % M
            de = de * (d["wire"][j][i] + beta * d["sig"][j][i] + gamma) % M
        acc.append(acc[-1] * nu * pow(de, M - 2, M) % M)
    return acc


def vanishing(d, x):
    return (pow(x, d["n"], M) - 1) % M


def lagrange1(d, x):
    return vanishing(d, x) * pow(d["n"] * (x - 1), M - 2, M) % M


def linearised(E, pl, d, h, ch, s):
    """value at s of the linearisation polynomial, from the commitments (reference string of secret s)"""
    S = lambda n: at(E.vals[key(pl.poly[n])], s)
    a, b, c, s1, s2, zw = [h[n] for n in BARS]
    be, ga, al, z = [ch[n] for n in ("beta", "gamma", "alpha", "zeta")]
    k1, k2 = d["ks"][1:]
    t = h["t_lo_commit"] + pow(z, h["degree"] + 1, M) * h["t_mid_commit"] + pow(z, 2 * h["degree"] + 2, M) * h["t_hi_commit"]
    gate = a * b * S("q_mx") + a * S("q_lx") + b * S("q_rx") + c * S("q_ox") + S("q_cx") + at(E.vals[key(pl.poly["pi_x"])], z)
    p1 = (a + be * z + ga) * (b + be * k1 * z + ga) * (c + be * k2 * z + ga) * h["z_commit"]
    p2 = (a + be * s1 + ga) * (b + be * s2 + ga) * (c + be * S("s_sigma_3") + ga) * zw
    return (gate + al * (p1 - p2) + al * al * (h["z_commit"] - 1) * lagrange1(d, z) - vanishing(d, z) * t) % M


def opening(E, pl, d, h, ch, s):
    """W(s)*(s - zeta) and the combination it must equal"""
    S = lambda n: at(E.vals[key(pl.poly[n])], s)
    v, z = ch["v"], ch["zeta"]
    items = [(h["a_commit"], h["bar_a"]), (h["b_commit"], h["bar_b"]), (h["c_commit"], h["bar_c"]), (S("s_sigma_1"), h["bar_s_sigma_1"]), (S("s_sigma_2"), h["bar_s_sigma_2"])]
    r = linearised(E, pl, d, h, ch, s) + sum(pow(v, j + 1, M) * (p - y) for j, (p, y) in enumerate(items))
    return h["w_ev_x_commit"] * (s - z) % M, r % M


@prop("P02", "changing any one absorbed element (each statement polynomial, size, k1, k2, each commitment, each evaluation) changes every challenge of its own and later rounds, for an "
      "uninterpreted hash; six distinct challenges are derived")
def P02(c):
    def f():
        pl = Plonk(c)
        vt = pl.verify().term()
        gs = pl.challenges(vt)
        if not gs:
            raise Missing("no challenges recognised in verify")
        n = sum(len(g) for g in gs)
        c.rule("six distinct challenges", pl.vb, n == 6 if n <= 6 else None, "draws per round: %s" % [len(g) for g in gs], "beta, gamma, alpha, zeta, v and u are independent draws")
        R = pl.roles(vt)
        st = list(pl.poly[n] for n in SEL + SIG) + [pl.k1, pl.k2, pl.size]
        late = {"beta": st + [pl.f[n] for n in COMS[:3]], "alpha": [pl.f["z_commit"]], "zeta": [pl.f[n] for n in COMS[4:7]], "v": [pl.f[n] for n in BARS],
                "u": [pl.f[n] for n in COMS[7:]]}
        items = [(t, ROUNDS[ROUNDS.index(r):]) for r, ts in late.items() for t in ts]

        def g(t, rounds):
            def go(E, i):
                E.choices = {"size": [1, 2, 4, 8]}
                reference(E, pl.k, 12, secret(E))
                old = {r: E.ev(R[r], {}) for r in rounds}
                v0 = E.ev(t, {})
                if isinstance(v0, Rat):
                    co = list(v0.n)
                    j = E.rnd("pos").randrange(len(co) + 1)
                    co += [0] * (j + 1 - len(co))
                    co[j] = (co[j] + 1 + (E.rnd("d").randrange(M) if i % 2 else 0)) % M
                    v = Rat(ptrim(co))
                    if v.n == v0.n:
                        return None
                elif t is pl.size:
                    v = v0 * 2
                else:
                    v = [(v0 + 1) % M, -v0 % M, (v0 + (1 << 200)) % M, E.rnd("new").randrange(M), (v0 + (1 << 64)) % M][i % 5]
                    if v == v0:
                        return None
                E.set(key(t), v)
                return [("%s does not depend on %s" % (r, t.args[0]), E.ev(R[r], {}) != old[r]) for r in rounds]
            return go
        for t, rounds in items:
            trial(c, "%s is bound before %s" % (t.args[0], rounds[0]), pl.vb, "dependence of each challenge on each element absorbed before it", g(t, rounds), n=10, budget=20)
    c.guard("binding", f)


def equation(pl, R):
    """the batched pairing equation"""
    k, w = pl.k, pl.w
    G, f, p = k.G, pl.f, pl.poly
    a, b, c, s1, s2, zw = [f[n] for n in BARS]
    be, ga, al, z, v, u = [R[n] for n in ROUNDS]
    cm = lambda n: T.summ(T.clen(p[n]), lambda i: mul(T.pcoeff(p[n], i), idx(G, i)))
    m = lambda *x: x[0] if len(x) == 1 else mul(x[0], m(*x[1:]))
    s = lambda *x: x[0] if len(x) == 1 else add(x[0], s(*x[1:]))
    zh = sub(power(z, pl.size), ONE)
    l1 = mul(zh, inv(mul(pl.size, sub(z, ONE))))
    d1 = num(1)
    t = s(f["t_lo_commit"], m(power(z, add(f["degree"], ONE)), f["t_mid_commit"]), m(power(z, add(mul(num(2), f["degree"]), num(2))), f["t_hi_commit"]))
    D = s(m(a, b, cm("q_mx")), m(a, cm("q_lx")), m(b, cm("q_rx")), m(c, cm("q_ox")), cm("q_cx"),
          m(f["z_commit"], s(m(s(a, m(be, z), ga), s(b, m(be, pl.k1, z), ga), s(c, m(be, pl.k2, z), ga), al), m(l1, al, al), u)),
          neg(m(s(a, m(be, s1), ga), s(b, m(be, s2), ga), al, be, zw, cm("s_sigma_3"))), neg(m(zh, t)))
    F = s(D, m(v, f["a_commit"]), m(power(v, num(2)), f["b_commit"]), m(power(v, num(3)), f["c_commit"]), m(power(v, num(4)), cm("s_sigma_1")), m(power(v, num(5)), cm("s_sigma_2")))
    r0 = sub(sub(T.peval(p["pi_x"], z), m(l1, al, al)), m(al, s(a, m(be, s1), ga), s(b, m(be, s2), ga), add(c, ga), zw))
    e = s(neg(r0), m(v, a), m(power(v, num(2)), b), m(power(v, num(3)), c), m(power(v, num(4)), s1), m(power(v, num(5)), s2), m(u, zw))
    W, V = f["w_ev_x_commit"], f["w_ev_wx_commit"]
    om = raw("root", pl.size)
    lhs = mul(add(W, mul(u, V)), k.g2s)
    rhs = mul(s(m(z, W), m(u, z, om, V), F, neg(mul(e, idx(G, ZERO)))), k.g2)
    return eq(lhs, rhs)


@prop("P03", "verify is Ok iff proof.degree <= size + 1, proof.u is the derived u and the batched pairing equation of the protocol holds for the derived challenges; otherwise Err")
def P03(c):
    def f():
        pl = Plonk(c)
        o = pl.verify()
        R = pl.roles(o.term())
        n = length(pl.k.G)
        long = And(*[ge(n, T.clen(pl.poly[x])) for x in SEL + SIG], ge(n, ONE))
        conj = [
            ("the split degree fits the circuit", ge(add(pl.size, ONE), pl.f["degree"]), {"degree": 0}),
            ("the circuit size is a power of two", eq(T.npow2(pl.size), pl.size), {"size": 0}),
            ("the reference string covers the circuit", long, {"g1_points": 0}),
            ("u is the derived one", eq(pl.f["u"], R["u"]), {"u": 0}),
            ("the pairing equation holds", equation(pl, R), {"g2s_point": 0, "g2s": 0}),
            ("the evaluation challenge is not 1", Not(eq(R[ROUNDS[3]], ONE))),
        ]
        c.accepts("verify", pl.vb, conj, o, only=[0, 3, 4], choices={"size": [1, 2, 4, 8]}, panics=True, n=24)
    c.guard("verify", f)


@prop("P04", "a, b and c each carry two and z three scalars that are separate draws from system entropy, as multiples of Z_H*{1,X} and Z_H*{1,X,X^2}; on the domain the committed "
      "polynomials equal the originals")
def P04(c):
    def f():
        pl = Plonk(c)
        o = pl.prove()
        dr = [x for x in subterms(o.val) if x.op == "rand" and x.args[0].op == "entropy"]
        names = ("a_commit", "b_commit", "c_commit", "z_commit")
        got = {n: pt(P(o.val, PROOF, n)) for n in names}

        def env(E0, s):
            E = RI.Env(E0.seed, E0.sizes)
            E.rounds = True
            d = satisfied(E, pl)
            reference(E, pl.k, d["n"], s)
            return E, d

        def keys(E):
            E.ev(o.val, {})
            out = {}
            for x in dr:
                out[("rand", E.canon(E.ev(x.args[0], {})), E.canon(E.ev(x.args[1], {})) if isinstance(x.args[1], T.Term) else str(x.args[1]))] = x
            return out

        def g(E0, i):
            pts = [E0.rnd("s", j).randrange(2, M) for j in range(6)]
            eff = {n: {} for n in names}
            for s in pts:
                E, d = env(E0, s)
                base = {n: E.ev(got[n], {}) for n in names}
                zs = pow(vanishing(d, s), M - 2, M)
                for kx in keys(E):
                    E.set(kx, (E.vals[kx] + 1) % M if kx in E.vals else 1)
                    for n in names:
                        eff[n].setdefault(kx, []).append((E.ev(got[n], {}) - base[n]) * zs % M)
                    E.set(kx, None)
            out = []
            used = {}
            for n in names:
                want = 3 if n == "z_commit" else 2
                vs = {kx: v for kx, v in eff[n].items() if any(v)}
                if n == "z_commit":
                    vs = {kx: v for kx, v in vs.items() if not any(any(eff[m].get(kx, [])) for m in names[:3])}
                for kx, v in vs.items():
                    out.append(("a scalar blinds both %s and %s" % (used.get(kx), n), kx not in used))
                    used.setdefault(kx, n)
                    out.append(("the blinding of %s is not a low-degree multiple of the vanishing polynomial" % n, lowdegree(pts, v, 3)))
                out.append(("%s is blinded by fewer than %d independent fresh scalars" % (n, want), rank(list(vs.values())) >= want))
            return out
        trial(c, "blinding", pl.pb, "effect of each entropy draw on each commitment, divided by the vanishing polynomial", g, n=4)

        def g2(E0, i):
            E0.rounds = True
            d = satisfied(E0, pl)
            row = i % d["n"]
            reference(E0, pl.k, d["n"], pow(d["w"], row, M))
            wires = [("%s differs from the wire values on the domain" % n, E0.ev(got[n], {}) == d["wire"][j][row] % M) for j, n in enumerate(names[:3])]
            return wires
        trial(c, "blinded polynomials agree with the originals on the domain", pl.pb, "committed polynomials evaluated on the circuit domain", g2)
    c.guard("blinding", f)


def lowdegree(xs, ys, k):
    """the values lie on a polynomial with at most k coefficients"""
    p = []
    for i in range(k):
        # newton interpolation of the first k points
        v = ys[i]
        for j, cj in enumerate(p):
            t = cj
            for m in range(j):
                t = t * (xs[i] - xs[m]) % M
            v = (v - t) % M
        den = 1
        for m in range(i):
            den = den * (xs[i] - xs[m]) % M
        p.append(v * pow(den, M - 2, M) % M)
    for x, y in list(zip(xs, ys))[k:]:
        v, t = 0, 1
        for j, cj in enumerate(p):
            v = (v + cj * t) % M
            t = t * (x - xs[j]) % M
        if v != y % M:
            return False
    return True


def rank(rows):
    rows = [list(r) for r in rows]
    k = 0
    for col in range(len(rows[0]) if rows else 0):
        piv = next((i for i in range(k, len(rows)) if rows[i][col] % M), None)
        if piv is None:
            continue
        rows[k], rows[piv] = rows[piv], rows[k]
        iv = pow(rows[k][col], M - 2, M)
        for i in range(k + 1, len(rows)):
            q = rows[i][col] * iv % M
            if q:
                rows[i] = [(x - q * y) % M for x, y in zip(rows[i], rows[k])]
        k += 1
    return k


@prop("P05", "for satisfied circuits: z takes the accumulator's values on the domain, t*Z_H = gates + alpha*permutation + alpha^2*(z-1)*L1, the evaluations are those of the committed "
      "polynomials at zeta and zeta*w, W*(X-zeta) and W'*(X-zeta*w) are the prescribed combinations, and the verifier accepts")
def P05(c):
    def f():
        pl = Plonk(c)
        vt = pl.verify().term()
        R = pl.roles(vt)
        o = pl.prove()

        def run(E0, s=None):
            """the proof for the same circuit, blinding and challenges on the reference string of another secret"""
            E = RI.Env(E0.seed, E0.sizes)
            E.rounds = True
            d = satisfied(E, pl)
            reference(E, pl.k, d["n"], 2)
            ch = {n: E.ev(R[n], {}) for n in ROUNDS}
            s = s(d, ch) if s else secret(E)
            E = RI.Env(E0.seed, E0.sizes)
            E.rounds = True
            d = satisfied(E, pl)
            reference(E, pl.k, d["n"], s)
            ok = E.bool(T.lit(o.ok)) if o.ok.op not in ("true", "false", "ite") else E.bool(o.ok)
            h = honest(E, pl, o)
            ch = {n: E.ev(R[n], {}) for n in ROUNDS}
            return E, d, s, h, ch, ok

        def poly(E0, i):
            E, d, s, h, ch, ok = run(E0)
            if not ok:
                return [("the prover refuses a satisfied circuit", False)]
            row = i % d["n"]
            out = []
            e2 = run(E0, lambda d, ch: ch["zeta"])
            e3 = run(E0, lambda d, ch: ch["zeta"] * d["w"] % M)
            e4 = run(E0, lambda d, ch: s * d["w"] % M)
            e5 = run(E0, lambda d, ch: pow(d["w"], row, M))
            for n, cm in (("bar_a", "a_commit"), ("bar_b", "b_commit"), ("bar_c", "c_commit")):
                out.append(("%s is not the committed polynomial's value at the evaluation point" % n, h[n] == e2[3][cm]))
            for n in ("s_sigma_1", "s_sigma_2"):
                out.append(("bar_%s is not the value at the evaluation point" % n, h["bar_" + n] == at(E.vals[key(pl.poly[n])], ch["zeta"])))
            out.append(("bar_z_w is not z at the shifted evaluation point", h["bar_z_w"] == e3[3]["z_commit"]))
            out.append(("z does not take the accumulator's values on the domain", e5[3]["z_commit"] == accumulator(d, ch["beta"], ch["gamma"])[row]))
            out.append(("the quotient is not the protocol's", quotient(E, pl, d, h, ch, s, e4[3]["z_commit"])))
            lhs, rhs = opening(E, pl, d, h, ch, s)
            out.append(("W*(X - zeta) is not the prescribed combination", lhs == rhs))
            out.append(("W'*(X - zeta*w) is not z - bar_z_w", h["w_ev_wx_commit"] * (s - ch["zeta"] * d["w"]) % M == (h["z_commit"] - h["bar_z_w"]) % M))
            return out
        trial(c, "polynomials of the proof", pl.pb, "polynomial identities at a random point", poly)

        def acc(E, i):
            d = satisfied(E, pl)
            reference(E, pl.k, d["n"], secret(E))
            ok = E.bool(o.ok)
            if not ok:
                return [("the prover refuses a satisfied circuit of %d rows" % d["n"], False)]
            honest(E, pl, o)
            r = E.ev(vt, {})
            return [("the verifier rejects the honest proof of a circuit of %d rows" % d["n"], isinstance(r, tuple) and r[2] == "Ok")]
        trial(c, "honest proofs are accepted", pl.vb, "completeness on satisfied circuits", acc)
    c.guard("prover", f)


def quotient(E, pl, d, h, ch, s, zsw):
    S = lambda n: at(E.vals[key(pl.poly[n])], s)
    a, b, c, z = h["a_commit"], h["b_commit"], h["c_commit"], h["z_commit"]
    be, ga, al = ch["beta"], ch["gamma"], ch["alpha"]
    k1, k2 = d["ks"][1:]
    gate = a * b * S("q_mx") + a * S("q_lx") + b * S("q_rx") + c * S("q_ox") + S("q_cx") + S("pi_x")
    p1 = (a + be * s + ga) * (b + be * k1 * s + ga) * (c + be * k2 * s + ga) * z
    p2 = (a + be * S("s_sigma_1") + ga) * (b + be * S("s_sigma_2") + ga) * (c + be * S("s_sigma_3") + ga) * zsw
    t = h["t_lo_commit"] + pow(s, h["degree"] + 1, M) * h["t_mid_commit"] + pow(s, 2 * h["degree"] + 2, M) * h["t_hi_commit"]
    return (gate + al * (p1 - p2) + al * al * (z - 1) * lagrange1(d, s) - t * vanishing(d, s)) % M == 0


@prop("P06", "no proof is returned for a circuit in which a gate equation fails (in one row, in some rows, or in all rows by the values of one monomial) or a copy constraint does")
def P06(c):
    def f():
        pl = Plonk(c)
        o = pl.prove()
        for wrong, what in (("gate", "an unsatisfied gate"), ("copy", "a violated copy constraint")):
            def g(E, i):
                d = satisfied(E, pl, wrong=wrong)
                if d is None:
                    return None
                reference(E, pl.k, d["n"], secret(E))
                return [("a proof is produced for a circuit with %s" % what, not E.bool(o.ok))]
            trial(c, "refuses " + what, pl.pb, "the prover's refusal condition on circuits that are satisfied except for one row or wire", g, n=40)
    c.guard("prover", f)


@prop("P10", "the value-graph summary of verify contains none of f_ax, f_bx, f_cx")
def P10(c):
    def f():
        pl = Plonk(c)
        o = pl.verify()
        t = o.term()
        seen = {x.fp for x in subterms(t)}
        for p in o.soft:
            seen |= {x.fp for x in subterms(p[0])}
        for n in WIT:
            c.rule("verification does not read %s" % n, pl.vb, pl.poly[n].fp not in seen, "the verifier's answer depends on %s" % pl.poly[n].args[0],
                   "absence of the witness polynomials from the value-graph summary of verify")
        c.rule("verification reads the statement", pl.vb, True if all(pl.poly[n].fp in seen for n in SEL + SIG) else None, "statement polynomials in the summary")
    c.guard("verify", f)


# ---------------------------------------------------------------- circuits
KINDS = ("addition", "multiplication", "constant")
CIRCUIT = "plonk::circuit::Circuit"
CPI = "plonk::common_preprocessed_input::cpi_circuit::CPICircuit"
CPIP = "plonk::common_preprocessed_input::cpi_parser::"
PARSER = "plonk::parser::Parser"


def uncompiled(c, w, kinds, cpi=False):
    """a circuit with one gate of each of the given kinds, on arbitrary positions and values, built through the public interface"""
    ty = CPI if cpi else CIRCUIT
    cur = w.value(w.method(ty.split("::")[-1], "Default", "default", crate="plonk"), [])
    place = w.I.temp(cur)
    gates = []
    for j, k in enumerate(kinds):
        b = c.body("%s::add_%s_gate" % (CIRCUIT, k))
        _, *args = w.params(b, {}, ["self"] + ["g%d.%s" % (j, n) for n in ("a", "b", "c", "pi")])
        args = [w.I.val(x) for x in args]
        gates.append((k, args))
        if cpi:
            b = c.body("%s::add_%s_gate" % (CPI, k))
            pos = [raw("tuple", tup(x, 0), tup(x, 1)) for x in args[:3]]
            more = [tup(args[0], 2)] if k == "constant" else []
            o = w.call(b, [w.I.val(place)] + pos + more + [args[3]])
            if isinstance(o.val, T.Term) and o.val.op == "adt":
                place = w.I.temp(o.val)
        else:
            o = w.call(b, [place] + args)
        if o.ok is not TRUE:
            raise Missing("adding a %s gate may be refused" % k)
    return w.I.val(place), gates


def opened(c, w, v):
    """the public content of a compiled circuit"""
    gates = w.value(c.body(CC + "::gate_constraints"), [v])
    copies = w.value(c.body(CC + "::copy_constraints"), [v])
    return content(c, w, gates, copies, P(v, CC, "size"))


def content(c, w, gates, copies, size):
    out = {n: w.I.val(w.value(c.body(GC + "::" + n), [gates])) for n in WIT + SEL}
    out.update({n: w.I.val(w.value(c.body(CPC + "::" + n), [copies])) for n in SIG + ("k1", "k2")})
    out["size"] = size
    return out


def good(v):
    return proj(v, "core::result::Result", "Ok", "0") if v.op != "adt" else v.args[2][0][1]


def compiled(c, kinds, cpi=False):
    w = c.world()
    circ, gates = uncompiled(c, w, kinds, cpi)
    o = w.call(c.body((CPI if cpi else CIRCUIT) + "::compile"), [circ])
    v = good(o.val)
    if cpi:
        return o, content(c, w, tup(v, 0), tup(v, 1), tup(v, 2)), gates
    return o, opened(c, w, v), gates


def next2(n):
    p = 1
    while p < n:
        p *= 2
    return p


def sequences(c):
    r = RI.random.Random("sequences %s" % c.seed)
    out = [[k] for k in KINDS] + [["addition", "constant"], ["multiplication", "addition", "constant"]]
    for n in [3, 4, 5, 6, 8, 12, 17, 33] + ([7, 9, 16, 31, 64, 65, 100] if c.thorough else []):
        out.append([r.choice(KINDS) for _ in range(n)])
    return out


def rows(gates, n):
    """prescribed row values: column -> terms"""
    out = {x: [] for x in WIT + SEL}
    for k, (a, b, cc, pi) in gates:
        v = [tup(x, 2) for x in (a, b, cc)]
        for x, y in zip(WIT, v):
            out[x].append(y)
        sel = dict(addition=(1, 1, -1, 0), multiplication=(0, 0, -1, 1), constant=(1, 0, 0, 0))[k]
        for x, y in zip(("q_lx", "q_rx", "q_ox", "q_mx"), sel):
            out[x].append(num(y))
        out["q_cx"].append(neg(v[0]) if k == "constant" else ZERO)
        out["pi_x"].append(neg(pi))
    return {x: y + [ZERO] * (n - len(y)) for x, y in out.items()}


def on_domain(p, n):
    return T.seqlit([T.peval(p, power(raw("root", num(n)), num(i))) if i else T.peval(p, ONE) for i in range(n)])


def short(kinds):
    return "".join(k[0] for k in kinds)


def valid_positions(E, gates, n):
    pos = []
    r = E.rnd("positions")
    for k, args in gates:
        row = []
        for x in args[:3]:
            cr = (r.randrange(3), r.randrange(n))
            preset(E, tup(x, 0), cr[0])
            preset(E, tup(x, 1), cr[1])
            row.append(cr)
        pos.append(row)
    return pos


@prop("P07", "for circuits built through the public interface with arbitrary positions and values: on the i-th domain point each selector, wire and public-input polynomial returned by its accessor takes "
      "gate i's value (zero on padding), the size is the next power of two, and compilation succeeds")
def P07(c):
    def f(kinds):
        o, x, gates = compiled(c, kinds)
        n = next2(len(kinds))
        b = c.body(CIRCUIT + "::compile")
        c.same("%s: size" % short(kinds), b, num(n), x["size"])
        for nm, vs in rows(gates, n).items():
            c.same("%s: %s" % (short(kinds), nm), b, T.seqlit(vs), on_domain(x[nm], n), rule="the polynomial's values on the domain are the prescribed rows")

        def g(E, i):
            valid_positions(E, gates, n)
            bad = any(E.bool(p[0]) for p in o.soft)
            return [("compilation refuses a circuit of %d gates" % len(kinds), E.bool(o.ok) and not bad),
                    ("a column has degree %d or more" % n, all(len(E.ev(x[k], {}).n) <= n for k in WIT + SEL + SIG))]
        trial(c, "%s: compiles" % short(kinds), b, "refusal condition on circuits whose positions lie within the circuit", g, n=8)
    for kinds in sequences(c):
        c.guard("compile " + short(kinds), lambda kinds=kinds: f(kinds))


@prop("P09", "for circuits built through the public interface: on the i-th domain point sigma_j takes the coset representative of the position wire j of gate i names, and its own on padding rows; "
      "1, k1, k2 represent distinct cosets of every domain")
def P09(c):
    def f(kinds, cpi):
        o, x, gates = compiled(c, kinds, cpi)
        n = next2(len(kinds))
        b = c.body((CPI if cpi else CIRCUIT) + "::compile")
        tag = "%s%s" % (short(kinds), " (preprocessed input)" if cpi else "")

        def g(E, i):
            pos = valid_positions(E, gates, n)
            k1, k2 = E.ev(x["k1"], {}), E.ev(x["k2"], {})
            ks, w = (1, k1, k2), root(n)
            out = [("size is %s" % E.ev(x["size"], {}), E.ev(x["size"], {}) == n)]
            for j, s in enumerate(SIG):
                p = E.ev(x[s], {})
                for r in range(n):
                    cr = pos[r][j] if r < len(pos) else (j, r)
                    out.append(("%s at row %d is not the representative of position %s" % (s, r, cr), at(p, pow(w, r, M)) == ks[cr[0]] * pow(w, cr[1], M) % M))
            return out
        trial(c, tag + ": sigma", b, "permutation polynomials evaluated on the circuit domain", g, n=12)

        def h(E, i):
            valid_positions(E, gates, n)
            k1, k2 = E.ev(x["k1"], {}), E.ev(x["k2"], {})
            big = 1 << 32
            q = k1 * pow(k2, M - 2, M) % M
            return [("k1 and k2 do not give distinct cosets: %s, %s" % (k1, k2), k1 % M != 0 and k2 % M != 0 and all(pow(y, big, M) != 1 for y in (k1, k2, q)))]
        trial(c, tag + ": cosets", b, "1, k1, k2 lie in different cosets of the largest (hence every) domain", h, n=2)
    for kinds in sequences(c)[2:]:
        for cpi in (False, True):
            c.guard("permutation %s%s" % (short(kinds), " cpi" if cpi else ""), lambda kinds=kinds, cpi=cpi: f(kinds, cpi))


def plain(v):
    return tuple(ptrim(list(v.n))) if isinstance(v, Rat) else v


@prop("P08", "both circuit types compile equal gates to equal polynomials, size and multipliers; CommonPreprocessedInput::new commits to each polynomial under its own name; both string front ends "
      "normalise every string identically and compile each formula of the corpus to the same circuit")
def P08(c):
    def same(kinds):
        o1, x1, _ = compiled(c, kinds)
        o2, x2, gates = compiled(c, kinds, True)
        b = c.body(CPI + "::compile")
        n = next2(len(kinds))

        def g(E, i):
            valid_positions(E, gates, n)
            ok = E.bool(o1.ok) and E.bool(o2.ok)
            return [("%s differs between the two circuits" % k, plain(E.ev(x1[k], {})) == plain(E.ev(x2[k], {}))) for k in SEL + SIG + ("k1", "k2", "size")] + [
                ("one of the circuits is refused", ok)]
        trial(c, "%s: equal circuits" % short(kinds), b, "the compiled polynomials of both circuit types under equal gates", g, n=12)
    for kinds in sequences(c):
        c.guard("compile " + short(kinds), lambda kinds=kinds: same(kinds))

    def commitments():
        k = KZG(c)
        w = k.w
        b = c.body(CPIP + "CommonPreprocessedInput::new")
        cc, _ = w.params(b, {}, ["cc", "scheme"])
        cc = w.I.val(cc)
        x = content(c, w, tup(cc, 0), tup(cc, 1), tup(cc, 2))
        sch = k.scheme
        spec = {n: T.summ(T.clen(x[n]), lambda i, n=n: mul(T.pcoeff(x[n], i), idx(k.G, i))) for n in SEL[:-1] + SIG}
        o = w.call(b, [cc, sch])
        v = o.val
        long = And(*[ge(length(k.G), T.clen(x[n])) for n in SEL + SIG], ge(length(k.G), ONE))
        F = lambda n: P(v, CPIP + "CommonPreprocessedInput", n)
        for n in SEL[:-1] + SIG:
            c.same("com_%s" % n, b, spec[n], pt(F("com_" + n)), assume=long)
        c.same("pi_x", b, x["pi_x"], F("pi_x"))
        for f, n in (("n", "size"), ("k1", "k1"), ("k2", "k2")):
            c.same(f, b, x[n], F(f))
    c.guard("commitments", commitments)

    def normal():
        w = c.world()
        a, b = c.body(PARSER + "::parse_string"), c.body(CPIP + "CPIGenerator::normalize")
        s = w.params(a, {}, ["text"])
        t1 = w.call(a, s).term()
        t2 = w.call(b, s).term()
        c.same("every string is normalised alike", b, t1, t2, rule="the two front ends' normalisation summaries are equal")
        sp = w.I.val(s[0])

        def g(E, i):
            r = E.rnd("text")
            txt = "".join(r.choice("xyAB12 +-*^=\t\n 30_") for _ in range(r.randint(1, 14))) if i % 2 else formula_text(r, i)
            preset(E, sp, tuple(txt.encode()))
            a, d = E.ev(t1, {}), E.ev(t2, {})
            return [("%r is normalised to %r by one front end and %r by the other" % (txt, plain_text(a), plain_text(d)), E.canon(a) == E.canon(d))]
        trial(c, "strings", b, "the two front ends' normalisation summaries on strings of blanks, operators, letters and digits", g, n=120)
    c.guard("normalisation", normal)

    def front(text, names):
        pr = parsed(c, text, names)
        k = KZG(c)
        w = k.w
        b = c.body(CPIP + "CPIGenerator::compute_common_preprocessed_input")
        gen = w.value(w.method("CPIGenerator", "Default", "default", crate="plonk"), [])
        o = w.call(b, [gen, text_term(text), k.scheme])
        v = good(o.val)
        F = lambda n: P(v, CPIP + "CommonPreprocessedInput", n)
        x = pr["x"]

        def g(E, i):
            s = secret(E)
            reference(E, k, 32, s)
            if not E.bool(o.ok) or not E.bool(pr["ok"]):
                return [("%s is refused" % text, False)]
            out = [("%s of %s differs between the front ends" % (n, text), plain(E.ev(F(f), {})) == plain(E.ev(x[n], {}))) for f, n in (("n", "size"), ("k1", "k1"), ("k2", "k2"), ("pi_x", "pi_x"))]
            return out + [("com_%s of %s is not the commitment of the parsed circuit's polynomial" % (n, text), E.ev(pt(F("com_" + n)), {}) == at(E.ev(x[n], {}), s)) for n in SEL[:-1] + SIG]
        trial(c, text, b, "the preprocessed input of a formula against the circuit the parser compiles from it", g, n=3)
    for text, names in corpus(c):
        c.guard("formula " + text, lambda text=text, names=names: wide(lambda: front(text, names)))


# ---------------------------------------------------------------- formulas
FORMULAS = [("x=1", "x"), ("x*y=6", "xy"), ("x+y=z", "xyz"), ("x*y+3*x^2+x*y*z=11", "xyz"), ("X ^ 3 + x + 5 = 35", "x"), ("x*y+y*x=12", "xy"), ("x*y+x*y+z=9", "xyz"),
            ("2*x^0+10*y^12=40", "xy"), ("x+-4=-3", "x"), ("-3*x+3*y=0", "xy"), ("x^2*y^3*z=2*w", ["x", "y", "z", "w"]), ("3+3+x=12", "x"), ("ab1^2+b*ab1=17", ["ab1", "b"]),
            ("12*12*x+0=-7", "x"), ("x^1+1=2", "x"), ("x*7+x*7+7*x=21", "x"),
            ("x*y+-5*y+x=y", "xy"), ("x+y+x*y=5", "xy"), ("x*y+x+y=11", "xy"), ("2+3*x+2*3=x", "x"), ("2147483647*x+y=2147483640", "xy")]


def corpus(c):
    r = RI.random.Random("formulas %s" % c.seed)
    out = [(t, list(n)) for t, n in FORMULAS]
    for _ in range(24 if c.thorough else 4):
        vs = r.sample(["x", "y", "z", "u2", "ab"], r.randint(1, 3))

        def factor():
            if r.random() < 0.3:
                return str(r.choice([0, 1, 2, 3, 7, 12, -2, -5]))
            return r.choice(vs) + r.choice(["", "", "^2", "^3", "^1", "^0", "^10" if r.random() < 0.2 else ""])
        text = "+".join("*".join(factor() for _ in range(r.randint(1, 3))) for _ in range(r.randint(1, 3))) + "=" + r.choice([str(r.randint(-9, 30)), r.choice(vs)])
        out.append((text, vs))
    return out


def formula_text(r, i):
    toks = []
    for _ in range(r.randint(1, 3)):
        toks.append("*".join(r.choice(["x", "Y", "ab", "u2", "10", "3", "x1"]) + r.choice(["", "", "^2", " ^ 3", "^0", "^1", "^12", "^4 "]) for _ in range(r.randint(1, 3))))
    return (" + ".join(toks) if i % 2 else "+-".join(toks)) + r.choice(["=", " = "]) + r.choice(["5", "-12", "x", "y^2", "3^3"])


def plain_text(v):
    return bytes(v).decode() if isinstance(v, tuple) and all(isinstance(q, int) for q in v) else str(v)


def text_term(s):
    return T.seqlit([num(x) for x in s.encode()])


def wide(f):
    from . import interp
    old = interp.UNROLL
    interp.UNROLL = 96
    try:
        return f()
    finally:
        interp.UNROLL = old


def parsed(c, text, names):
    """the compiled circuit of a formula, for arbitrary witness values"""
    w = c.world()
    place = w.I.temp(w.value(w.method("Parser", "Default", "default", crate="plonk"), []))
    ab, pb = c.body(PARSER + "::add_witness"), c.body(PARSER + "::parse")
    wit = {}
    for n in names:
        _, _, v = w.params(ab, {}, ["self", "name", "wit_" + n])
        wit[n] = w.I.val(v)
        w.call(ab, [place, text_term(n), wit[n]])
    o = w.call(pb, [w.I.val(place), text_term(text)])
    if o.ok is FALSE:
        return dict(ok=FALSE, body=pb)
    o2 = w.call(c.body(CIRCUIT + "::compile"), [o.val])
    return dict(ok=And(o.ok, o2.ok), x=opened(c, w, good(o2.val)), wit=wit, body=pb)


class Formula:
    """independent reading of a formula: gates in evaluation order, each with the names and values of its wires"""

    def __init__(self, text, wit):
        self.wit, self.gates, self.seen = wit, [], set()
        lhs, rhs = normalised(text).split("=")
        acc = None
        for t in lhs.split("+") + ["-" + rhs]:
            fs = [self.factor(x) for x in t.split("*")]
            p = fs[0]
            for q in fs[1:]:
                p = self.gate("multiplication", p, q, (p[0] + "*" + q[0], p[1] * q[1] % M))
            acc = p if acc is None else self.gate("addition", acc, p, (acc[0] + "+" + p[0], (acc[1] + p[1]) % M))
        k, a, b, o = self.gates[-1]
        self.gates[-1] = (k, a, b, (o[0], 0))

    def factor(self, s):
        sign, n = (-1, s[1:]) if s.startswith("-") else (1, s)
        if n in self.wit:
            return (s, sign * self.wit[n] % M)
        v = sign * int(n) % M
        self.gate("constant", (s, v), ("0", 0), (s + "+0", v))
        return (s, v)

    def gate(self, kind, a, b, o):
        if (kind, a[0], b[0]) not in self.seen:
            self.seen.add((kind, a[0], b[0]))
            self.gates.append((kind, a, b, o))
        return o


def normalised(s):
    """lower case, no blanks, powers written out"""
    out, i = "", 0
    s = s.lower().replace(" ", "")
    base = ""
    while i < len(s):
        if s[i] == "^":
            j = i + 1
            while j < len(s) and s[j].isdigit():
                j += 1
            e = int(s[i + 1:j])
            out = out[:len(out) - len(base)] + ("*".join([base] * e) if e else "1")
            i = j
            continue
        base = "" if s[i] in "+-*=" else base + s[i]
        out += s[i]
        i += 1
    return out


def kind_of(row):
    sel = tuple(row[x] % M for x in ("q_lx", "q_rx", "q_ox", "q_mx"))
    for k, v in (("addition", (1, 1, M - 1, 0)), ("multiplication", (0, 0, M - 1, 1)), ("constant", (1, 0, 0, 0))):
        if sel == v:
            return k
    return None


def circuit_facts(E, pr, text, names):
    """facts about the compiled circuit of a formula under one choice of witness values"""
    wit = {}
    r = E.rnd("witness")
    for n in names:
        wit[n] = r.randrange(1 << 64, M)
        preset(E, pr["wit"][n], wit[n])
    want = Formula(text, wit).gates
    x = pr["x"]
    n = E.ev(x["size"], {})
    out = [("the circuit of %s is refused" % text, E.bool(pr["ok"])), ("%s compiles to %s rows, not %d" % (text, n, next2(len(want))), n == next2(len(want)))]
    if not all(ok for _, ok in out):
        return out
    w = root(n)
    ev = {k: [at(E.ev(x[k], {}), pow(w, i, M)) for i in range(n)] for k in WIT + SEL + SIG}
    got = []
    for i in range(n):
        row = {k: ev[k][i] for k in WIT + SEL}
        if any(row[k] for k in SEL[:5]):
            got.append((kind_of(row), row["f_ax"], row["f_bx"], row["f_cx"], row["q_cx"], i))
        out.append(("row %d of %s has a public input" % (i, text), row["pi_x"] == 0))
    # match rows and gates
    free = list(got)
    place = {}
    for k, a, b, o in want:
        cst = -a[1] % M if k == "constant" else 0
        m = next((g for g in free if g[:5] == (k, a[1], b[1], o[1], cst)), None)
        out.append(("%s has no %s gate on %s and %s with matching values" % (text, k, a[0], b[0]), m is not None))
        if m is None:
            return out
        free.remove(m)
        for j, q in enumerate((a, b, o)):
            place.setdefault(q[0], set()).add((j, m[5]))
    out.append(("%s has %d gates too many" % (text, len(free)), not free))
    ks = (1, E.ev(x["k1"], {}), E.ev(x["k2"], {}))
    rep = {ks[j] * pow(w, i, M) % M: (j, i) for j in range(3) for i in range(n)}
    nxt = {}
    for j, s in enumerate(SIG):
        for i in range(n):
            nxt[(j, i)] = rep.get(ev[s][i])
    for name, ps in sorted(place.items()):
        p0 = min(ps)
        seen, p = [], p0
        while p is not None and p not in seen:
            seen.append(p)
            p = nxt[p]
        out.append(("the occurrences of wire %s in %s do not form one cycle" % (name, text), p == p0 and set(seen) == ps))
    named = set().union(*place.values()) if place else set()
    for p in nxt:
        if p not in named:
            out.append(("padding position %s of %s is wired" % (p, text), nxt[p] == p))
    return out


@prop("P11", "for each formula of the corpus and every witness: one gate per distinct operation with the wire values it denotes, positions of equal names form one cycle, nothing else is wired; "
      "normalisation of every string removes blanks, lowers case and writes powers out; wire values in the parser are the operation's")
def P11(c):
    def norm():
        w = c.world()
        b = c.body(PARSER + "::parse_string")
        s = w.params(b, {}, ["text"])
        o = w.call(b, s)
        sp = w.I.val(s[0])

        def g(E, i):
            txt = formula_text(E.rnd("text"), i)
            preset(E, sp, tuple(txt.encode()))
            if not E.bool(o.ok) or any(E.bool(p[0]) for p in o.soft):
                return [("normalisation refuses '%s'" % txt, False)]
            v = plain_text(E.ev(o.val, {}))
            return [("'%s' is normalised to '%s', not '%s'" % (txt, v, normalised(txt)), v == normalised(txt))]
        trial(c, "normalisation", b, "the normalisation summary applied to formula-shaped strings", g, n=40)
    c.guard("normalisation", norm)

    def f(text, names):
        pr = parsed(c, text, names)
        if pr["ok"] is FALSE:
            c.rule(text, pr["body"], False, "parsing %s is refused for every witness" % text, "the formulas of the corpus are accepted")
            return
        trial(c, text, pr["body"], "gates, wire values and copy cycles of the compiled formula", lambda E, i: circuit_facts(E, pr, text, names), n=3)
    for text, names in corpus(c):
        c.guard("formula " + text, lambda text=text, names=names: wide(lambda: f(text, names)))


SLICE = "plonk::slice_polynomial::SlicePoly"


@prop("P12", "slices are consecutive blocks of degree+1 coefficients that together hold every coefficient; commit returns their commitments in order; compact weights slice i by "
      "point^(i*(degree+1)); the proof's quotient commitments recombine under the degree it reports")
def P12(c):
    def f():
        k = KZG(c)
        w = k.w
        nb, cb, pb, gb = [c.body(SLICE + "::" + n) for n in ("new", "commit", "compact", "get_degree")]
        p = w.I.val(w.params(nb, {}, ["poly"])[0])
        x = w.I.val(w.params(pb, {}, ["self", "point"])[1])
        o = w.call(nb, [p])
        sl = o.val
        deg = w.value(gb, [sl])
        oc = w.call(cb, [sl, k.scheme])
        op = w.call(pb, [sl, x])

        def g(E, i):
            r = E.rnd("poly")
            n = [3, 4, 5, 6, 7, 8, 9, 12, 18, 22, 30, 2, 1, 49, 97, 200, 394, 778][i % 18]
            co = [r.choice([0, r.randrange(M), r.randrange(M)]) for _ in range(n - 1)] + [r.randrange(1, M)]
            preset(E, p, Rat(co))
            s = secret(E)
            reference(E, k, n, s)
            z = r.randrange(2, M)
            preset(E, x, z)
            d = E.ev(deg, {})
            out = [("slicing a polynomial of %d coefficients is refused" % n, E.bool(o.ok) and E.bool(oc.ok) and E.bool(op.ok) and not any(E.bool(q[0]) for q in o.soft + oc.soft + op.soft)),
                   ("degree %s for %d coefficients" % (d, n), isinstance(d, int) and 0 <= d < n and 3 * (d + 1) >= n)]
            if not out[1][1] or not out[0][1]:
                return out
            bl = [co[j * (d + 1):(j + 1) * (d + 1)] for j in range(3)]
            cm = E.ev(oc.val, {})
            vals = [dict(q[3])["0"] if isinstance(q, tuple) else q for q in cm]
            out.append(("%d commitments" % len(vals), len(vals) == 3))
            for j, b in enumerate(bl):
                out.append(("commitment %d is not that of the %d-th block of %d coefficients" % (j, j, d + 1), vals[j] == RI.peval(tuple(b), s)))
            q = E.ev(op.val, {})
            want = [sum(pow(z, j * (d + 1), M) * (b[m] if m < len(b) else 0) for j, b in enumerate(bl)) % M for m in range(d + 1)]
            out.append(("compact is not the blocks weighted by the powers of the point", ptrim(list(q.n)) == ptrim(want) if isinstance(q, Rat) else q == (want[0] if d == 0 else None)))
            return out
        trial(c, "slices", nb, "blocks, commitments and recombination of arbitrary polynomials", g, n=26)
    c.guard("slices", f)

    def whole():
        pl = Plonk(c)
        vt = pl.verify().term()
        R = pl.roles(vt)
        o = pl.prove()

        def g(E0, i):
            res = []
            for s2 in (0, 1):
                E = RI.Env(E0.seed, E0.sizes)
                E.rounds = True
                d = satisfied(E, pl)
                s = secret(E) if not s2 else secret(E) * d["w"] % M
                reference(E, pl.k, d["n"], s)
                if not E.bool(o.ok):
                    return None
                h = honest(E, pl, o)
                res.append((E, d, s, h))
            (E, d, s, h), (_, _, _, h2) = res
            ch = {n: E.ev(R[n], {}) for n in ROUNDS}
            return [("the committed parts do not recombine to the quotient under the reported degree", quotient(E, pl, d, h, ch, s, h2["z_commit"])),
                    ("the reported degree %s is larger than the verifier admits" % h["degree"], h["degree"] <= d["n"] + 1)]
        trial(c, "the proof's quotient", pl.pb, "recombination of the quotient commitments under the proof's degree", g, n=12)
    c.guard("quotient", whole)
