"""Rules for the FRI crate (F01-F06)."""
import itertools
from . import terms as T, models, rieval as RI
from .terms import raw, num, add, sub, mul, neg, inv, power, idx, length, tab, seqlit, adt, proj, ite, And, Or, Not, eq, ge, lt, TRUE, FALSE, ZERO, ONE, X
from .api import PANIC, Missing, Spec
from .check import prop
from .props_kzg import subterms

PROOF = "fri::prover::Proof"
DEC = "fri::prover::Decommitment"
MP = "fri::merkle_tree::MerkleProof"
TR = "fri::fiat_shamir::transcript::Transcript::"


def fld(c, v, path, name):
    a = T.ADTS.get(path)
    if not a or name not in [n for n, t, p in a["v"][0]["f"]]:
        raise Missing("%s.%s" % (path, name))
    return T.project(v, name) if hasattr(T, "project") else proj(v, path, None, name)


def transcript(c, sp, roots, const, nq, domain):
    """folding challenges and query positions the protocol derives from (roots, const)"""
    tr = sp.var(sp.val(sp.call(TR + "new", ZERO)))

    def one(k):
        sp.call(TR + "digest", tr, idx(roots, k))
        return sp.call(TR + "generate_a_challenge", tr)
    rs = sp.collect(length(roots), one)
    sp.call(TR + "digest", tr, const)
    q = sp.val(sp.call(TR + "generate_challenge_list_usize", tr, nq))
    return rs, tab(nq, lambda i: T.mod(idx(q, i), domain))


def merkle_root(c, sp, leaf, pathv, index):
    """root recomputed from a leaf: at level i the node is a left child iff bit i of the index is 0"""
    cur = sp.var(sp.val(sp.call("fri::hasher::hash", leaf)))

    def level(i):
        nb = idx(pathv, i)
        x = sp.get(cur)
        l = sp.val(sp.call("fri::hasher::hash_slice", seqlit([x, nb])))
        r = sp.val(sp.call("fri::hasher::hash_slice", seqlit([nb, x])))
        sp.set(cur, ite(eq(T.mod(T.idiv(index, power(num(2), i)), num(2)), ZERO), l, r))
    sp.loop(length(pathv), level)
    return sp.get(cur)


RANK = {"*": None}      # each condition is established by choosing only the inputs it names


def by(*names):
    return {n: i for i, n in enumerate(names)}


def verify_conditions(c):
    """the verifier's outcome and the conditions under which the protocol accepts"""
    w = c.world()
    models.DOMOK[0] = False
    b = c.body("fri::verifier::verify")
    p, = w.params(b, {}, ["proof"])
    o = w.call(b, [p])
    P = lambda n: proj(w.I.val(p), PROOF, None, n)
    D = lambda d, n: proj(d, DEC, None, n)
    M = lambda m, n: proj(m, MP, None, n)
    ds, coset, nq, roots, const, dl = [P(n) for n in ("domain_size", "coset", "number_of_queries", "layers_root", "const_val", "decommitment_list")]
    sp = Spec(c, w)
    rs, qs = transcript(c, sp, roots, const, nq, ds)
    L = length(roots)
    gen = raw("generator", "F")
    size = lambda i: T.idiv(ds, power(num(2), i))
    i1 = lambda q, i: T.mod(idx(qs, q), size(i))
    i2 = lambda q, i: T.mod(add(i1(q, i), T.idiv(size(i), num(2))), size(i))
    dec = lambda q: idx(dl, q)
    ev = lambda q, i: idx(D(dec(q), "evaluations"), i)
    sv = lambda q, i: idx(D(dec(q), "sym_evaluations"), i)
    mp = lambda q, i: idx(D(dec(q), "auth_paths"), i)
    sm = lambda q, i: idx(D(dec(q), "sym_auth_paths"), i)
    half = inv(num(2))

    def fold(q, i):
        x = mul(power(T.root(size(i), ONE), i1(q, i)), power(coset, power(num(2), i)))
        e, s, r = ev(q, i), sv(q, i), idx(rs, i)
        return add(mul(half, add(e, s)), mul(mul(r, mul(half, sub(e, s))), inv(x)))
    alls = lambda g: T.forall(nq, lambda q: T.forall(L, lambda i: g(q, i)))
    each = lambda g: T.forall(nq, g)
    nxt = lambda q, i: ite(eq(i, sub(L, ONE)), const, ev(q, add(i, ONE)))
    conj = [
        ("the domain size is a power of two", eq(T.npow2(ds), ds), by("domain_size")),
        ("the field has a domain of that size", T.lit(raw("domok", T.npow2(ds))), {}),
        ("one root per halving of the domain", eq(L, T.ilog2(ds)), by("layers_root")),
        ("the coset is the fixed one", eq(coset, gen), by("coset")),
        ("one decommitment per query", eq(length(dl), nq), by("decommitment_list")),
        ("one evaluation per layer", each(lambda q: eq(length(D(dec(q), "evaluations")), L)), by("evaluations")),
        ("one symmetric evaluation per layer", each(lambda q: eq(length(D(dec(q), "sym_evaluations")), L)), by("sym_evaluations")),
        ("one path per layer", each(lambda q: eq(length(D(dec(q), "auth_paths")), L)), by("auth_paths")),
        ("one symmetric path per layer", each(lambda q: eq(length(D(dec(q), "sym_auth_paths")), L)), by("sym_auth_paths")),
        ("every path is as deep as its layer's tree", alls(lambda q, i: eq(length(M(mp(q, i), "hash_proof")), sub(L, i))), by("hash_proof")),
        ("every symmetric path is as deep as its layer's tree", alls(lambda q, i: eq(length(M(sm(q, i), "hash_proof")), sub(L, i))), by("hash_proof")),
        ("every fold equals the next layer's opened value or the final constant", alls(lambda q, i: eq(fold(q, i), nxt(q, i))), [by("sym_evaluations"), by("sym_evaluations"), by("const_val", "sym_evaluations")]),
        ("every evaluation is the leaf of its path", alls(lambda q, i: eq(M(mp(q, i), "leaf_val"), ev(q, i))), by("leaf_val")),
        ("every symmetric evaluation is the leaf of its path", alls(lambda q, i: eq(M(sm(q, i), "leaf_val"), sv(q, i))), by("leaf_val")),
        ("every path is for the query's position", alls(lambda q, i: eq(M(mp(q, i), "index"), i1(q, i))), by("index")),
        ("every symmetric path is for the symmetric position", alls(lambda q, i: eq(M(sm(q, i), "index"), i2(q, i))), by("index")),
        ("every path names its layer's root", alls(lambda q, i: eq(M(mp(q, i), "root"), idx(roots, i))), by("root")),
        ("every symmetric path names its layer's root", alls(lambda q, i: eq(M(sm(q, i), "root"), idx(roots, i))), by("root")),
        ("every path recomputes the root it names", alls(lambda q, i: eq(
            merkle_root(c, sp, M(mp(q, i), "leaf_val"), M(mp(q, i), "hash_proof"), M(mp(q, i), "index")), M(mp(q, i), "root"))), {}),
        ("every symmetric path recomputes the root it names", alls(lambda q, i: eq(
            merkle_root(c, sp, M(sm(q, i), "leaf_val"), M(sm(q, i), "hash_proof"), M(sm(q, i), "index")), M(sm(q, i), "root"))), {}),
    ]
    o.args = [p]
    return b, conj, o


CHOICES = {"domain_size": [1, 2, 2, 2, 4, 4, 4, 8], "number_of_queries": [1, 1, 2, 3], "p1": [1, 2, 2, 3, 4], "p2": [1, 1, 2, 3]}


@prop("F01", "verify(proof) is Ok iff the domain exists, has one layer per halving and starts at the fixed coset, there is one decommitment per query with one entry "
      "per layer, and for every query and layer both openings sit at the prescribed positions, match their paths, the paths recompute that layer's root, and "
      "the fold equals the next opened value or the final constant")
def F01(c):
    def f():
        b, conj, o = verify_conditions(c)
        c.accepts("verify", b, conj, o, rank=RANK, choices=CHOICES, budget=150 if c.thorough else 45)
    c.guard("verify", f)


LAYER = "fri::fri_layer::FriLayer"
TREE = "fri::merkle_tree::MerkleTree"


def fold_poly(p, r):
    """even(x) + r*odd(x)"""
    n = T.clen(p)
    even = T.fromcoeffs(tab(T.idiv(add(n, ONE), num(2)), lambda i: T.pcoeff(p, mul(num(2), i))))
    odd = T.fromcoeffs(tab(T.idiv(n, num(2)), lambda i: T.pcoeff(p, add(mul(num(2), i), ONE))))
    return add(even, mul(r, odd))


def tree_root(c, sp, leaves):
    """root of the tree over the leaves, padded with zeros to a power of two"""
    n = T.npow2(length(leaves))
    lv = T.seqcat(leaves, tab(sub(n, length(leaves)), lambda i: ZERO))
    cur = sp.var(sp.collect(n, lambda i: sp.val(sp.call("fri::hasher::hash", idx(lv, i)))))

    def level(k):
        x = sp.get(cur)
        sp.set(cur, sp.collect(T.idiv(length(x), num(2)), lambda i: sp.val(
            sp.call("fri::hasher::hash_slice", seqlit([idx(x, mul(num(2), i)), idx(x, add(mul(num(2), i), ONE))])))))
    sp.loop(T.ilog2(n), level)
    return idx(sp.get(cur), ZERO)


@prop("F02", "verify_merkle_proof(p) = [root recomputed from p.leaf_val along p.hash_proof by the bits of p.index = p.root]; root() is the hash of the zero-padded "
      "leaves in pairs; generate_proof(i) verifies, names leaf i and that root; every variable-length item fed to the hash of a list is delimited")
def F02(c):
    M = lambda m, n: proj(m, MP, None, n)

    def f():
        w = c.world()
        b = c.body("fri::merkle_tree::verify_merkle_proof")
        p, = w.params(b, {}, ["proof"])
        o = w.call(b, [p])
        sp = Spec(c, w)
        r = merkle_root(c, sp, M(p, "leaf_val"), M(p, "hash_proof"), M(p, "index"))
        c.same("verify_merkle_proof", b, eq(r, M(p, "root")), o)
    c.guard("verify_merkle_proof", f)

    def f():
        w = c.world()
        nb, rb = c.body(TREE + "::new"), c.body(TREE + "::root")
        ev, = w.params(nb, {}, ["evaluations"])
        t = w.value(nb, [ev])
        o = w.call(rb, [t])
        sp = Spec(c, w)
        c.same("MerkleTree::root", rb, tree_root(c, sp, ev), o)
    c.guard("MerkleTree::root", f)

    def f():
        w = c.world()
        nb, gb, rb = c.body(TREE + "::new"), c.body(TREE + "::generate_proof"), c.body(TREE + "::root")
        vb = c.body("fri::merkle_tree::verify_merkle_proof")
        ev, = w.params(nb, {}, ["evaluations"])
        i = w.params(gb, {}, ["self", "index"])[1]
        t = w.value(nb, [ev])
        n = T.npow2(length(ev))
        inr = lt(i, n)
        o = w.call(gb, [t, i])
        mp = o.val
        c.same("generate_proof names the index", gb, ite(inr, i, PANIC), (ite(inr, M(mp, "index"), PANIC), []))
        c.same("generate_proof opens the leaf", gb, ite(inr, ite(lt(i, length(ev)), idx(ev, i), ZERO), PANIC), (ite(inr, M(mp, "leaf_val"), PANIC), []))
        c.same("generate_proof names the root", gb, ite(inr, w.value(rb, [t]), PANIC), (ite(inr, M(mp, "root"), PANIC), []))
        c.same("generate_proof lists one neighbour per level", gb, ite(inr, T.ilog2(n), PANIC), (ite(inr, length(M(mp, "hash_proof")), PANIC), []))
        v = w.value(vb, [mp])
        c.same("generated proofs verify", gb, TRUE, (v, []), inr)
        c.same("generate_proof does not refuse an index of the tree", gb, TRUE, (ite(o.ok, TRUE, PANIC), []), inr)
    c.guard("generate_proof", f)

    def f():
        w = c.world()
        b = c.body("fri::hasher::hash_slice")
        p, = w.params(b, {}, ["data"])
        o = w.call(b, [p])
        ok, why = injective(o.val, p)
        c.rule("hash_slice determines the list", b, ok, why, "every variable-length item fed to the hash is followed by a fixed byte that no item contains, or preceded by its length")
    c.guard("hash_slice", f)

    def f():
        w = c.world()
        b = c.body("fri::hasher::hash")
        p, = w.params(b, {}, ["data"])
        o = w.call(b, [p])
        x = w.I.val(p)
        hs = [t for t in subterms(o.val) if t.op == "hash"]
        ok = len(hs) == 1 and whole(hs[0].args[-1], x)
        c.rule("hash covers the whole element", b, ok if hs else None, "hashed: %s" % T.show(hs[0].args[-1] if hs else o.val), "the hashed bytes are an injective encoding of the element")
    c.guard("hash", f)


ENC = {"tostr", "dispstr", "dbgstr", "ser", "lebytes", "bebytes", "bigbytes"}


def whole(t, x):
    """the byte string is one complete encoding of x"""
    return t.op in ENC and t.args and t.args[0] is x


def injective(h, p):
    """no two lists are hashed as the same bytes: the hashed byte string is evaluated for all short lists over elements whose decimal texts
    are prefixes of, or concatenate to, one another (the text of zero is empty)"""
    hs = [t for t in subterms(h) if t.op == "hash"]
    if len(hs) != 1:
        return None, "no single hash: %s" % T.show(h)
    d = hs[0].args[-1]
    els = [0, 1, 2, 11, 12, 21, 112]
    seen = {}
    n = 0
    for k in range(0, 4):
        for xs in itertools.product(els, repeat=k):
            E = RI.Env(1)
            E.digits = True
            E.set(("param", p.args[0]), tuple(xs))
            try:
                v = E.ev(d)
                key = E.canon(v)
            except RI.Und as e:
                return None, "hash input not evaluated: %s" % e
            n += 1
            if key in seen:
                return False, "the lists %s and %s are hashed as the same byte string (%s)" % (list(seen[key]), list(xs), T.show(d))
            seen[key] = xs
    return True, "%d lists over %s have pairwise different encodings: %s" % (n, els, T.show(d))


def mentions(t, x):
    return any(y is x for y in subterms(t))


def prescribed_proof(c, w, poly, blowup, nq):
    """the proof the protocol prescribes, as an abstract program over the tree's transcript, layers and trees"""
    sp = Spec(c, w)
    ds = T.npow2(mul(T.clen(poly), blowup))
    L = T.ilog2(ds)
    gen = raw("generator", "F")
    tr = sp.var(sp.val(sp.call(TR + "new", ZERO)))
    cur = sp.var(poly)

    def one(i):
        size = T.idiv(ds, power(num(2), i))
        layer = sp.val(sp.call(LAYER + "::from_poly", sp.get(cur), power(gen, power(num(2), i)), size))
        tree = proj(layer, LAYER, None, "merkle_tree")
        sp.call(TR + "digest", tr, sp.val(sp.call(TREE + "::root", tree)))
        r = sp.val(sp.call(TR + "generate_a_challenge", tr))
        sp.set(cur, fold_poly(sp.get(cur), r))
        return layer
    layers = sp.collect(L, one)
    const = T.pcoeff(sp.get(cur), ZERO)
    okc = eq(T.clen(sp.get(cur)), ONE)
    sp.call(TR + "digest", tr, const)
    q = sp.val(sp.call(TR + "generate_challenge_list_usize", tr, nq))

    def dec(j):
        pos = lambda i: T.mod(T.mod(idx(q, j), ds), T.idiv(ds, power(num(2), i)))
        sym = lambda i: T.mod(add(pos(i), T.idiv(ds, power(num(2), add(i, ONE)))), T.idiv(ds, power(num(2), i)))
        tree = lambda i: proj(idx(layers, i), LAYER, None, "merkle_tree")
        evs = lambda i: proj(idx(layers, i), LAYER, None, "evaluations")
        path = lambda i, p: sp.val(sp.call(TREE + "::generate_proof", tree(i), p))
        return adt(DEC, None, [
            ("evaluations", tab(L, lambda i: idx(evs(i), pos(i)))), ("auth_paths", sp.collect(L, lambda i: path(i, pos(i)))),
            ("sym_evaluations", tab(L, lambda i: idx(evs(i), sym(i)))), ("sym_auth_paths", sp.collect(L, lambda i: path(i, sym(i))))])
    decs = ite(eq(L, ZERO), seqlit([]), sp.collect(nq, dec))
    roots = sp.collect(L, lambda i: sp.val(sp.call(TREE + "::root", proj(idx(layers, i), LAYER, None, "merkle_tree"))))
    return okc, dict(domain_size=ds, coset=gen, number_of_queries=nq, layers_root=roots, const_val=const, decommitment_list=decs), sp


def prover(c, fields, what):
    w = c.world()
    b = c.body("fri::prover::generate_proof")
    poly, blow, nq = w.params(b, {}, ["p0", "p1", "p2"])
    o = w.call(b, [poly, blow, nq])
    ds = T.npow2(mul(T.clen(poly), blow))
    assume = And(ge(ds, num(2)), ge(T.clen(poly), ONE))
    if "decommitment_list" in fields:
        assume = And(assume, ge(nq, ONE))
    okc, sp, spec = prescribed_proof(c, w, poly, blow, nq)
    for f in fields:
        g = ite(o.ok, proj(o.val, PROOF, None, f), PANIC)
        c.same("generate_proof: " + what.get(f, f), b, (sp[f], []), (g, []), And(assume, okc), choices=CHOICES)


@prop("F03", "the prover absorbs root i, then draws challenge i, for every layer in order, then absorbs the constant and draws the query positions modulo the domain "
      "size; the verifier replays exactly that on the roots and constant of the proof")
def F03(c):
    def f():
        prover(c, ["layers_root", "const_val", "decommitment_list"],
               {"layers_root": "later roots under the prescribed challenges", "const_val": "constant under the prescribed challenges",
                "decommitment_list": "queries at the positions drawn after all roots and the constant"})
    c.guard("prover", f)

    def f():
        b, conj, o = verify_conditions(c)
        names = [x[0] for x in conj]
        only = [i for i, n in enumerate(names) if "fold equals" in n or "query's position" in n or "one root per" in n]
        c.accepts("verify", b, conj, o, rank=RANK, choices=CHOICES, only=only)
    c.guard("verifier", f)


@prop("F04", "FriLayer::from_poly(p, g, n) evaluates p at g*w^i for all i < n and commits those values; fold(p, r) = even(p) + r*odd(p); layer i is the i-th fold on "
      "the coset g^(2^i)*<w^(2^i)> and the constant is the last fold")
def F04(c):
    def f():
        w = c.world()
        b = c.body(LAYER + "::from_poly")
        p, g, n = w.params(b, {}, ["poly", "coset", "domain_size"])
        o = w.call(b, [p, g, n])
        size = T.npow2(n)
        ev = tab(size, lambda i: T.peval(p, mul(g, power(T.root(size, ONE), i))))
        sp = Spec(c, w)
        tree = sp.val(sp.call(TREE + "::new", ev))
        spec = adt(LAYER, None, [("evaluations", ev), ("merkle_tree", tree), ("coset", g), ("domain_size", n)])
        c.same("FriLayer::from_poly", b, spec, o)
    c.guard("from_poly", f)

    def f():
        w = c.world()
        b = c.body("fri::prover::fold_polynomial")
        p, r = w.params(b, {}, ["poly", "r"])
        c.same("fold_polynomial", b, fold_poly(w.I.val(p), r), w.call(b, [p, r]))
    c.guard("fold_polynomial", f)

    def f():
        prover(c, ["domain_size", "coset", "layers_root", "const_val"], {})
    c.guard("generate_proof", f)


@prop("F05", "for every query and layer the decommitment holds that layer's evaluation and Merkle proof at index mod size and half a layer away, in layer order; the proof "
      "lists every root, the constant, its own parameters and one decommitment per query")
def F05(c):
    def f():
        prover(c, ["domain_size", "coset", "number_of_queries", "layers_root", "const_val", "decommitment_list"], {})
    c.guard("generate_proof", f)


@prop("F06", "verify accepts only if the layers end before the domain is exhausted (degree bound below the domain size) and at least one query is answered; the prover "
      "blows the domain up by the given factor")
def F06(c):
    def f():
        prover(c, ["domain_size"], {"domain_size": "the domain is blown up by the blow-up factor"})
    c.guard("generate_proof", f)

    def f():
        b, conj, o = verify_conditions(c)
        P = lambda n: proj(o.w.I.val(o.args[0]), PROOF, None, n)
        c.refuses("verify: refuses a proof without queries", b, conj, ("no query is answered", eq(P("number_of_queries"), ZERO), by("number_of_queries")), o, rank=RANK, choices=CHOICES)
        ds = P("domain_size")
        c.refuses("verify: refuses a proof without degree bound", b, conj,
                  ("there are as many foldings as halvings of the domain, so that every function on the domain has the claimed degree", And(ge(ds, num(4)), eq(length(P("layers_root")), T.ilog2(ds))), by("domain_size")),
                  o, rank=RANK, choices=CHOICES)
    c.guard("verify", f)
