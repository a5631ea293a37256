"""Rules that concern all crates (T01-T04)."""
import re
from . import terms as T, rieval as RI, lint, models
from .terms import raw, num, adt, proj, ite, seqlit, tab, idx, TRUE, FALSE, ZERO, ONE
from .api import PANIC, Missing, Spec
from .check import prop
from .trials import trial
from .props_kzg import subterms

# transcript type -> (absorbing functions, challenge functions with the requested numbers, folding constructors)
TRANSCRIPTS = {
    "fri::fiat_shamir::transcript::Transcript": dict(absorb=["digest"], draw=["generate_a_challenge", "generate_challenges", "generate_challenge_list_usize"], new="new", each={}),
    "plonk::challenge::ChallengeGenerator": dict(absorb=["feed"], draw=["generate_challenges"], new=None, each={"from_commitments": "feed"}),
    "nova::transcript::Transcript": dict(absorb=["feed", "feed_scalar_num"], draw=["generate_challenges"], new=None,
                                         each={"from_commitment": "feed", "from_scalar_number": "feed_scalar_num"}),
}


def short(ty):
    return ty.split("::")[0]


def fresh_state(c, w, ty, body, name="self"):
    """an arbitrary transcript, as a place"""
    return w.params(body, {}, [name])[0]


def state_key(v, want):
    """(place key, field name) of the state field of that kind in a transcript value"""
    for n, x in v.args[2]:
        if want == "data" and x.op == "param" and (x.ty or {}).get("p", "").split("::")[-1] == "Option":
            return x
    return None


D0 = tuple(("tok", "prev", i) for i in range(32))
SOME = lambda t: ("adt", "Option", "Some", (("0", t),))
NONE = ("adt", "Option", "None", ())


class Probe(RI.Env):
    """an interpretation that remembers what was hashed"""

    def __init__(self, seed=1):
        RI.Env.__init__(self, seed)
        self.hashed = {}
        self.trace_hash = True


def contiguous(a, b):
    n = len(b)
    return n == 0 or any(a[i:i + n] == b for i in range(len(a) - n + 1))


def digest_rule(c, ty, fn):
    """one absorbing function: the new state is a hash over the whole previous state and the whole value"""
    w = c.world()
    b = c.body(ty + "::" + fn)
    a = w.params(b, {}, ["self", "value"])
    v0 = w.I.val(a[0])
    dk = state_key(v0, "data")
    if dk is None:
        raise Missing("optional state of %s" % ty)
    val = w.I.val(a[1])
    inner = val
    while inner.op == "adt" and len(inner.args[2]) == 1:
        inner = inner.args[2][0][1]
    o = w.call(b, a)
    st = w.I.val(a[0])
    name = "%s %s" % (short(ty), fn)
    fnames = [n for n, x in v0.args[2] if x is dk]
    new = T.proj(st, st.args[0] if st.op == "adt" else ty, None, fnames[0]) if st.op == "adt" else None
    if new is None:
        raise Missing("state of %s after %s" % (ty, fn))
    c.rule(name + " never refuses", b, not o.panics or all(p[0] is FALSE for p in o.panics), "panic condition %s" % T.show(o.panic), "absorbing is total")
    for tag, prev in (("an absorbed state", SOME(D0)), ("the empty state", NONE)):
        verdicts = []
        aims = RI.steering([new])[:24]
        runs = [(i, None, None) for i in range(1, 7)] + [(3, v, None) for v in (0, 1, 2, RI.M - 1)] + [(i, None, a) for a in aims for i in (1, 2)]
        for seed, val0, aim in runs:
            E = Probe(seed)
            try:
                if aim:
                    RI.aim_at(E, aim, E.rnd("aim"))
                E.set(RI.free_key(E, dk, {}), prev)
                if val0 is not None:
                    k = RI.free_key(E, inner, {})
                    if k is None:
                        continue
                    E.set(k, val0)
                r = E.ev(new, {})
                x = E.ev(inner, {})
            except RI.Und as e:
                if val0 is None and not aim:
                    verdicts.append((None, "not evaluated: %s" % e))
                continue
            if aim:
                v = judge(E, r, x, inner, prev, new)
                if v[0] is False:
                    verdicts.append(v)
                continue
            verdicts.append(judge(E, r, x, inner, prev, new))
        bad = [v for v in verdicts if v[0] is False]
        und = [v for v in verdicts if v[0] is None]
        if bad:
            c.rule("%s: new state from %s" % (name, tag), b, False, bad[0][1] + "; state: " + T.show(new)[:300], "the state becomes a hash over the whole previous state and the whole value")
        elif und:
            c.rule("%s: new state from %s" % (name, tag), b, None, und[0][1])
        else:
            c.rule("%s: new state from %s" % (name, tag), b, True, verdicts[0][1], "the state becomes a hash over the whole previous state and the whole value")


def encodings(E, x, inner):
    out = []
    for op, extra in [("serbytes", (m,) + n) for m in "uc" for n in ((), (32,), (48,), (96,))] + [("lebytes", (32,)), ("bebytes", (32,)), ("tostr", ())]:
        try:
            v = E.ev(raw(op, inner, *extra), {})
            if isinstance(v, tuple):
                out.append(v)
        except Exception:
            pass
    return out


def judge(E, r, x, inner, prev, new):
    if not (isinstance(r, tuple) and len(r) == 4 and r[0] == "adt" and r[2] == "Some"):
        return False, "the state is %s after absorbing" % (r,)
    data = r[3][0][1]
    if not isinstance(data, tuple):
        return None, "state is not a byte string"
    hs = {}
    for t in data:
        if isinstance(t, tuple) and t[:2] == ("tok", "hb"):
            hs.setdefault(t[2], set()).add(t[3])
    if len(hs) != 1 or any(not (isinstance(t, tuple) and t[:2] == ("tok", "hb")) for t in data):
        if not hs:
            return False, "the state is not the output of a hash"
        return None, "the state mixes several hashes"
    (h, pos), = hs.items()
    if len(pos) < 16:
        return False, "only %d bytes of the digest are kept" % len(pos)
    inp = E.hashed.get(h)
    if inp is None:
        return None, "hash input unknown"
    toks = list(inp)
    if prev != NONE:
        miss = [t for t in D0 if t not in toks]
        if miss:
            return False, "%d of the %d bytes of the previous state are not hashed" % (len(miss), len(D0))
    encs = encodings(E, x, inner)
    if any(contiguous(tuple(toks), e) for e in encs if e):
        return True, "hashes the whole previous state and a complete encoding of the value"
    part = [e for e in encs if any(isinstance(t, tuple) and t[0] == "tok" and t in toks for t in e)]
    if part:
        return False, "only part of the value's encoding is hashed"
    try:
        k = RI.free_key(E, inner, {})
        for d in (1, 10 ** 5, 10 ** 12, 10 ** 18, 1 << 64, -2 * x):
            if d % RI.M == 0:
                continue
            E.set(k, (x + d) % RI.M)
            r2 = E.ev(new, {})
            E.set(k, x)
            if E.canon(r2) == E.canon(r):
                return False, "two different values give the same state"
    except (RI.Und, TypeError):
        pass
    # the value must at least be read: a hash that ignores it
    return None, "encoding of the value not recognised"


def depends(c, ty, fn, b):
    """the value is hashed at all: two values give two states"""
    w = c.world()
    a = w.params(b, {}, ["self", "value"])
    v0 = w.I.val(a[0])
    dk = state_key(v0, "data")
    val = w.I.val(a[1])
    w.call(b, a)
    st = w.I.val(a[0])
    nm = [n for n, x in v0.args[2] if x is dk][0]
    new = T.proj(st, st.args[0], None, nm)
    if new.opq:
        return None, "state not understood"
    ats = [x for x in subterms(val) if x.op == "param"] or [val]
    if not any(T.contains(new, x) for x in ats):
        return False, "the state after absorbing does not depend on the value"
    return True, "depends on the value"


@prop("T01", "absorbing v turns the state S into Some(H(... S ... enc(v) ...)) with all bytes of S and of one complete encoding of v; constructors absorb every listed value in "
      "order; a challenge is a draw of a generator whose seed reads at least 8 bytes of the current state")
def T01(c):
    for ty, d in TRANSCRIPTS.items():
        for fn in d["absorb"]:
            def f(ty=ty, fn=fn):
                b = c.body(ty + "::" + fn)
                ok, why = depends(c, ty, fn, b)
                c.rule("%s %s reads the value" % (short(ty), fn), b, ok, why, "the absorbed value enters the state")
                digest_rule(c, ty, fn)
            c.guard("%s %s" % (short(ty), fn), f)
        for fn, ab in d["each"].items():
            def f(ty=ty, fn=fn, ab=ab):
                w = c.world()
                b = c.body(ty + "::" + fn)
                vs, = w.params(b, {}, ["values"])
                o = w.call(b, [vs])
                sp = Spec(c, w)
                tr = sp.var(sp.val(empty(c, w, ty)))
                sp.loop(T.length(w.I.val(vs)), lambda k: sp.call(ty + "::" + ab, tr, idx(w.I.val(vs), k)))
                c.same("%s %s absorbs every value in order" % (short(ty), fn), b, sp.get(tr), o)
            c.guard("%s %s" % (short(ty), fn), f)
        if d["new"]:
            def f(ty=ty, d=d):
                w = c.world()
                b = c.body(ty + "::" + d["new"])
                v, = w.params(b, {}, ["value"])
                o = w.call(b, [v])
                st = o.val
                dn = data_field(c, ty)
                new = T.proj(st, ty, None, dn)
                rs = []
                for seed in range(1, 5):
                    E = Probe(seed)
                    try:
                        rs.append(judge(E, E.ev(new, {}), E.ev(v, {}), v, NONE, new))
                    except RI.Und as e:
                        rs.append((None, "not evaluated: %s" % e))
                bad = [x for x in rs if x[0] is not True]
                c.rule("%s %s absorbs its value" % (short(ty), d["new"]), b, bad[0][0] if bad else True, (bad or rs)[0][1], "the first state is a hash of the whole value")
            c.guard("%s %s" % (short(ty), d["new"]), f)
        for fn in d["draw"]:
            def f(ty=ty, fn=fn):
                seed_rule(c, ty, fn)
            c.guard("%s %s" % (short(ty), fn), f)


def data_field(c, ty):
    a = T.ADTS.get(ty)
    if not a:
        raise Missing(ty)
    cr = c.db.crates[ty.split("::")[0]]
    for n, t, p in a["v"][0]["f"]:
        x = cr.types[t]
        if x["k"] == "adt" and x["p"].split("::")[-1] == "Option":
            return n
    raise Missing("optional state of " + ty)


def empty(c, w, ty):
    """the transcript before anything was absorbed (its Default)"""
    for b in c.db.impls.get(("Default", "default"), []):
        it = b["crate"].types[b["impl_self"]]
        if it["k"] == "adt" and it["p"] == ty:
            return w.I.call(b, [], {})
    raise Missing("Default for " + ty)


COUNT = 3


def draws(c, w, ty, fn, st):
    """challenge terms one request returns"""
    b = c.body(ty + "::" + fn)
    a = [st]
    if len(b["params"]) > 1:
        a.append(num(COUNT))
    o = w.call(b, a)
    return b, o


def elements(v):
    """values of an evaluated challenge request"""
    return list(v) if isinstance(v, tuple) and not (v and v[0] in ("adt", "tok", "rng")) else [v]


def seed_rule(c, ty, fn, seeded=True):
    w = c.world()
    b = c.body(ty + "::" + fn)
    st, = w.params(b, {}, ["self"])[:1]
    dk = state_key(w.I.val(st), "data")
    if dk is None:
        raise Missing("optional state of %s" % ty)
    b, o = draws(c, w, ty, fn, st)
    t = o.val
    nm = "%s %s" % (short(ty), fn)
    base = [(i * 37 + 11) % 251 for i in range(32)]

    def ev(data):
        E = RI.Env(7)
        for x in subterms(t):
            if x.op == "param" and str(x.args[0]).startswith("const "):
                E.set(("param", x.args[0]), COUNT)
        E.set(RI.free_key(E, dk, {}), SOME(tuple(data)))
        return E.canon(E.ev(t, {})), elements(E.ev(t, {}))
    try:
        k0, v0 = ev(base)
    except RI.Und as e:
        c.rule(nm + ": seeded by the state", b, None, "not evaluated: %s" % e)
        return
    if not v0:
        c.rule(nm + ": seeded by the state", b, None, "number of draws unknown")
        return
    used = []
    for i in range(32):
        d = list(base)
        d[i] ^= 0x55
        k1, v1 = ev(d)
        if len(v1) == len(v0) and all(RI_ne(x, y) for x, y in zip(v0, v1)):
            used.append(i)
    if seeded:
        c.rule(nm + ": seeded by the state", b, len(used) >= 8, "%d bytes of the state determine every challenge" % len(used),
               "changing a state byte changes every challenge; at least 64 bits of the state are read")
    if not seeded:
        word = fn.endswith("usize")
        seen = []
        for i in range(24):
            try:
                seen += [x for x in ev([(j * 41 + i * 67 + 5) % 251 for j in range(32)])[1] if isinstance(x, int)]
            except RI.Und:
                break
        bits = max(seen).bit_length() if len(seen) >= 48 or len(seen) >= 20 and not word else None
        c.rule(nm + ": draws range widely", b, None if bits is None else bits >= (24 if word else 100), "%d draws of up to %s bits" % (len(seen), bits),
               "field challenges are not confined to 100 bits, nor positions to 24 bits")
    c.rule(nm + ": draws are independent", b, all(RI_ne(x, y) for i, x in enumerate(v0) for y in v0[:i]), "%d draws" % len(v0),
           "the values of one request are pairwise different draws")


def RI_ne(x, y):
    return x != y


@prop("T02", "for every state: a challenge request is refused when the last operation was a challenge request and on an empty transcript, and allowed right after an absorption; "
      "the values of one request are different draws of one generator")
def T02(c):
    for ty, d in TRANSCRIPTS.items():
        for ab in d["absorb"]:
            for fn in d["draw"]:
                def f(ty=ty, ab=ab, fn=fn, d=d):
                    w = c.world()
                    b = c.body(ty + "::" + ab)
                    a = w.params(b, {}, ["self", "value"])
                    w.call(b, a)
                    fb, o1 = draws(c, w, ty, fn, a[0])
                    nm = "%s %s, %s" % (short(ty), ab, fn)
                    dk = state_key(w.I.val(w.params(b, {}, ["self", "value"])[0]), "data")
                    c.same(nm + " is allowed", fb, TRUE, (ite(T.And(o1.ok, nosoft(o1)), TRUE, PANIC), []))
                    if fn != d["draw"][0] or ab == d["absorb"][0]:
                        snap = w.I.val(a[0])
                        for fn2 in d["draw"]:
                            w.I.store(w.I.through(a[0]), snap)
                            fb2, o2 = draws(c, w, ty, fn2, a[0])
                            c.same(nm + ", %s is refused" % fn2, fb2, PANIC, (ite(T.And(o2.ok, nosoft(o2)), TRUE, PANIC), []))
                        w.I.store(w.I.through(a[0]), snap)
                        v = w.params(b, {}, ["self", "again"])[1]
                        w.call(b, [a[0], v])
                        fb3, o3 = draws(c, w, ty, fn, a[0])
                        c.same(nm + ", %s, %s is allowed" % (ab, fn), fb3, TRUE, (ite(T.And(o3.ok, nosoft(o3)), TRUE, PANIC), []))
                c.guard("%s %s %s" % (short(ty), ab, fn), f)
        for fn in d["draw"]:
            def f(ty=ty, fn=fn):
                seed_rule(c, ty, fn, False)
            c.guard("%s %s draws" % (short(ty), fn), f)
            if not d["new"]:
                def f(ty=ty, fn=fn):
                    w = c.world()
                    w.reset()
                    st = w.I.temp(w.I.M.deref_all(w.I, empty(c, w, ty)))
                    fb, o = draws(c, w, ty, fn, st)
                    c.same("%s %s on an empty transcript is refused" % (short(ty), fn), fb, PANIC, (ite(T.And(o.ok, nosoft(o)), TRUE, PANIC), []))
                c.guard("%s %s empty" % (short(ty), fn), f)
            else:
                def f(ty=ty, fn=fn, d=d):
                    w = c.world()
                    nb = c.body(ty + "::" + d["new"])
                    v, = w.params(nb, {}, ["value"])
                    st = w.I.temp(w.call(nb, [v]).val)
                    fb, o = draws(c, w, ty, fn, st)
                    c.same("%s %s after construction from a value is allowed once" % (short(ty), fn), fb, TRUE, (ite(T.And(o.ok, nosoft(o)), TRUE, PANIC), []))
                    fb, o = draws(c, w, ty, fn, st)
                    c.same("%s %s twice after construction is refused" % (short(ty), fn), fb, PANIC, (ite(T.And(o.ok, nosoft(o)), TRUE, PANIC), []))
                c.guard("%s %s new" % (short(ty), fn), f)


def nosoft(o):
    r = FALSE
    for p in o.soft:
        r = T.Or(r, p[0])
    return T.Not(r)


# ------------------------------------------------------------------ determinism
NONDET = [
    (r"from_entropy$|thread_rng$|OsRng|from_os_rng$|rand::random$|rand::rng$|getrandom", "system randomness"),
    (r"SystemTime|Instant::now|time::Instant|chrono", "time"),
    (r"^std::env::|env::var|env::args|process::id|current_dir|std::fs::|std::net::|io::stdin", "environment"),
    (r"RandomState::new|DefaultHasher|thread::current|thread::spawn|ThreadId|available_parallelism", "per-run state"),
]
ITER = re.compile(r"Hash(Map|Set)<.*>?::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain)$|Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain)$")
DET = [
    "fri::fiat_shamir::transcript::Transcript::generate_a_challenge", "fri::fiat_shamir::transcript::Transcript::generate_challenges",
    "fri::fiat_shamir::transcript::Transcript::generate_challenge_list_usize", "fri::fiat_shamir::transcript::Transcript::digest",
    "plonk::challenge::ChallengeGenerator::generate_challenges", "plonk::challenge::ChallengeGenerator::feed",
    "plonk::challenge::ChallengeGenerator::from_commitments",
    "nova::transcript::Transcript::generate_challenges", "nova::transcript::Transcript::feed", "nova::transcript::Transcript::feed_scalar_num",
    "fri::verifier::verify", "fri::prover::generate_proof", "fri::merkle_tree::verify_merkle_proof", "plonk::verifier::verify", "nova::nifs::NIFS::verify", "nova::nifs::NIFS::verifier",
    "nova::nifs::NIFS::verify_challenge", "nova::nifs::NIFS::verify_opening", "nova::ivc::IVC::verify",
    "nova::nifs::NIFS::prover", "nova::nifs::NIFS::prove", "nova::circuit::AugmentedCircuit::run", "nova::circuit::AugmentedCircuit::hash_io",
    "nova::r1cs::is_r1cs_satisfied", "nova::r1cs::FWitness::commit",
    "kzg::scheme::KzgScheme::commit", "kzg::scheme::KzgScheme::commit_vector", "kzg::scheme::KzgScheme::commit_para", "kzg::scheme::KzgScheme::open",
    "kzg::scheme::KzgScheme::open_vector", "kzg::scheme::KzgScheme::verify", "kzg::scheme::KzgScheme::batch_verify", "kzg::scheme::KzgScheme::aggregate_commitments",
    "kzg::srs::Srs::new_from_secret",
    "plonk::circuit::Circuit::compile", "plonk::common_preprocessed_input::cpi_circuit::CPICircuit::compile",
    "plonk::common_preprocessed_input::cpi_parser::CPIGenerator::compute_common_preprocessed_input",
]


@prop("T03", "no function reachable from verification, committing, opening, challenge derivation, compilation or common-input generation calls a source of system "
      "randomness, time, environment or per-run state, and no result depends on the iteration order of a hash container")
def T03(c):
    seen = set()
    for p in DET:
        def f(p=p):
            b = c.body(p)
            r = lint.reach(c.db, [b])
            hits, iters = [], {}
            n = 0
            for h, (x, fr) in r.items():
                for node, q, key in lint.external(c.db, x):
                    n += 1
                    for pat, what in NONDET:
                        if re.search(pat, q) or re.search(pat, key):
                            hits.append("%s: %s at %s (%s)" % (what, q, node["sp"], lint.path_to(r, x)))
                    if order_dependent(c, x, node, q):
                        iters.setdefault(owner(c.db, x)["h"], []).append("%s at %s" % (q, node["sp"]))
                for node in lint.nodes(x["body"]):
                    if node["k"] == "static" or (node["k"] == "const" and node.get("mutable")):
                        hits.append("mutable static at %s" % node.get("sp"))
            c.calls += n
            c.analysed |= {x["path"] for x, fr in r.values()}
            nm = p.split("::")[0] + " " + "::".join(p.split("::")[-2:])
            c.rule(nm + " reads no outside state", b, not hits, "; ".join(hits) or "%d reachable functions, %d external call sites" % (len(r), n),
                   "no reachable call site is a source of randomness, time, environment or per-run state")
            for h, its in iters.items():
                if h not in seen:
                    seen.add(h)
                    x = c.db.by_h[h]
                    c.guard(x["path"], lambda x=x, its=its: order_rule(c, "%s does not depend on iteration order" % x["path"], x, its))
        c.guard(p, f)

    from . import props_plonk as PP

    def f(cpi):
        kinds = ["multiplication", "addition", "constant"]
        xs = []
        try:
            for k in (0, 1, 1000, 3):
                models.MAPORDER[0] = k
                o, x, gates = PP.compiled(c, kinds, cpi)
                xs.append(x)
        finally:
            models.MAPORDER[0] = 0
        names = PP.SEL + PP.SIG + ("k1", "k2", "size") + (() if cpi else PP.WIT)

        def g(E, i):
            PP.valid_positions(E, gates, 4)
            return [("%s depends on the iteration order of a hash container" % k, PP.plain(E.ev(xs[0][k], {})) == PP.plain(E.ev(x[k], {}))) for k in names for x in xs[1:]]
        trial(c, "a compiled %s circuit does not depend on iteration order" % ("preprocessed" if cpi else "proving"), c.body((PP.CPI if cpi else PP.CIRCUIT) + "::compile"),
              "the compiled circuit is the same for four iteration orders of every hash container", g, n=6)
    for cpi in (False, True):
        c.guard("compile order %s" % cpi, lambda cpi=cpi: f(cpi))

    def front(text, names):
        xs = []
        for k in (0, 1, 1000, 3):
            models.MAPORDER[0] = k
            try:
                pr = PP.parsed(c, text, names)
                b = c.body(PP.CPIP + "CPIGenerator::compute_common_preprocessed_input")
                kz = PP.KZG(c)
                gen = kz.w.value(kz.w.method("CPIGenerator", "Default", "default", crate="plonk"), [])
                cp = kz.w.call(b, [gen, PP.text_term(text), kz.scheme])
            finally:
                models.MAPORDER[0] = 0
            xs.append((pr["x"], PP.good(cp.val)))

        def g(E, i):
            PP.reference(E, kz, 32, PP.secret(E))
            out = []
            for x, v in xs[1:]:
                out += [("%s of the parsed circuit of %s depends on the iteration order of a hash container" % (k, text), PP.plain(E.ev(xs[0][0][k], {})) == PP.plain(E.ev(x[k], {})))
                        for k in PP.SEL + PP.SIG + PP.WIT + ("k1", "k2", "size")]
                out.append(("the preprocessed input of %s depends on the iteration order of a hash container" % text, E.canon(E.ev(xs[0][1], {})) == E.canon(E.ev(v, {}))))
            return out
        trial(c, "the circuits of %s do not depend on iteration order" % text, c.body(PP.PARSER + "::parse"),
              "the circuits compiled from a formula by both front ends are the same for four iteration orders of every hash container", g, n=3)
    for text, names in (("x*y+3*x^2+x*y*z=11", "xyz"), ("2+x*y+y=7", "xy")):
        c.guard("formula order " + text, lambda text=text, names=names: PP.wide(lambda: front(text, list(names))))


def owner(db, b):
    while b["kind"] == "Closure":
        p = re.sub(r"::\{closure#\d+\}$", "", b["path"])
        q = db.by_path.get(p)
        if q is None:
            return b
        b = q
    return b


def order_dependent(c, x, node, q):
    m = re.search(r"Hash(Map|Set)", q)
    if m and re.search(r"::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain)$", q):
        return True
    if q.endswith("IntoIterator>::into_iter") or q.endswith("IntoIterator::into_iter"):
        ga = node.get("rga") or node.get("ga") or []
        for g in ga[:1]:
            if isinstance(g, int):
                t = x["crate"].types[g]
                while t["k"] == "ref":
                    t = x["crate"].types[t["t"]]
                if t["k"] == "adt" and t["p"].split("::")[-1] in ("HashMap", "HashSet"):
                    return True
    return False


def exposed(t):
    """subterms outside operations whose result does not depend on the order of their operands"""
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.fp in seen:
            continue
        seen.add(x.fp)
        out.append(x)
        if x.op in ("mapof", "setof", "sum", "prod", "count", "len", "seqmax", "seqmin", "exists"):
            continue
        if x.op == "ring":
            st.extend(a for m, co in x.args[0] for a, e in m)
        else:
            st.extend(T._children(x.args))
    return out


def order_rule(c, nm, x, iters):
    """an iteration over a hash container is harmless when the summary of the function around it does not depend on the order"""
    out = []
    try:
        for k in (0, 1, 1000):
            models.MAPORDER[0] = k
            w = c.world()
            ps = w.params(x, {})
            o = w.call(x, ps)
            soft = [p[0] for p in o.soft]
            out.append(raw("tuple", o.term(), *[w.I.M.deref_all(w.I, w.I.val(p)) for p in ps if p.op == "ref"]))
    finally:
        models.MAPORDER[0] = 0
    bad = [y for t in out for y in exposed(t) if y.op == "mentries"]
    if bad:
        if out[0].opq or any(y.op == "sorted" for y in subterms(out[0])):
            c.rule(nm, x, None, "; ".join(iters))
        else:
            c.rule(nm, x, False, "the order of a hash container reaches the result: " + "; ".join(iters), "the order of a hash container does not reach the result")
        return
    c.same(nm, x, (raw("tuple", out[0], out[0]), soft), (raw("tuple", out[1], out[2]), soft), rule="the summary is the same for two iteration orders of every hash container")


# ------------------------------------------------------------------ secrets
# entry point -> (secret parameters or fields by name, secret draws of system randomness)
SECRETS = [
    ("kzg::srs::Srs::new", [], None),
    ("kzg::srs::Srs::new_from_secret", ["p0"], None),
    ("kzg::scheme::KzgScheme::commit", ["p1"], None),
    ("kzg::scheme::KzgScheme::commit_vector", ["p1"], None),
    ("kzg::scheme::KzgScheme::open", ["p1"], None),
    ("kzg::scheme::KzgScheme::open_vector", ["p1"], None),
    ("fri::prover::generate_proof", ["p0"], None),
    ("plonk::prover::generate_proof", ["f_ax", "f_bx", "f_cx", "p0"], None),
    ("plonk::circuit::Circuit::compile", ["gates", "p0"], None),
    ("plonk::parser::Parser::get_witness_value", ["witnesses", "value_fr"], None),
    ("plonk::parser::Parser::generate_additional_gate", ["witnesses", "value_fr"], None),
    ("plonk::parser::Parser::generate_constant_gate", ["witnesses"], None),
    ("plonk::parser::Parser::gen_circuit", ["value_fr", "p0"], None),
    ("plonk::parser::Parser::add_witness", ["p2"], None),
    ("plonk::parser::Parser::parse", ["witnesses"], "types"),
    ("nova::nifs::NIFS::prover", ["e", "w", "p1", "p2"], None),
    ("nova::nifs::NIFS::prove", ["e", "w", "p1"], None),
    ("nova::nifs::NIFS::fold_witness", ["e", "w", "p1", "p2", "p3"], None),
    ("nova::nifs::NIFS::compute_t", ["p3", "p4"], None),
    ("nova::ivc::IVC::prove", ["e", "w", "w_i", "big_w_i"], None),
    ("nova::circuit::AugmentedCircuit::run", ["p3", "e", "w"], None),
    ("nova::r1cs::FWitness::commit", ["e", "w"], None),
    ("nova::r1cs::FWitness::new", ["p0"], None),
]
PUBLIC_TYPES = {
    "proof": ["plonk::prover::Proof", "fri::prover::Proof", "nova::nifs::NIFSProof", "nova::ivc::ZkIVCProof", "kzg::srs::Srs", "kzg::scheme::KzgScheme",
              "kzg::opening::KzgOpening", "kzg::commitment::KzgCommitment", "plonk::common_preprocessed_input::cpi::CommonPreprocessedInput"],
}


def tainted(t, names):
    """secret atoms a printed term reveals: under a hash or as exponent of a group element they are hidden"""
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if x.fp in seen:
            continue
        seen.add(x.fp)
        if x.op in ("hash", "len", "clen"):
            continue
        if x.op == "rand":
            if any(y.op == "entropy" for y in subterms(x)):
                out.append(x)
            continue
        if x.op == "ring":
            for m, co in x.args[0]:
                if any(a.op == "generator" or "g1_points" in T.show(a) for a, e in m):
                    continue
                st.extend(a for a, e in m)
            continue
        if x.op == "sum" and "g1_points" in T.show(x)[:4000]:
            continue
        if x.op == "param":
            last = re.sub(r"\[\d+\]", "", str(x.args[0])).split(".")
            if any(n in names for n in last):
                out.append(x)
            continue
        if x.op == "proj" and str(x.args[-1]) in names:
            out.append(x)
            continue
        st.extend(T._children(x.args))
    return out


@prop("T04", "no value printed by the trusted setup, the provers, the parser, compilation or witness handling depends on the setup secret, a witness value or polynomial or a "
      "blinding draw, except through a hash or a group element; public object types carry no witness, polynomial or generator")
def T04(c):
    for p, names, how in SECRETS:
        def f(p=p, names=names, how=how):
            b = c.body(p)
            r = lint.reach(c.db, [b])
            sites = []
            for h, (x, fr) in r.items():
                for node, q, key in lint.external(c.db, x):
                    if key in ("io::_print", "io::_eprint") or re.search(r"(^|::)(_print|_eprint)$|log::|io::Stdout|io::Stderr|fs::write|File::create", q):
                        sites.append((x, node, q))
            c.analysed |= {x["path"] for x, fr in r.values()}
            c.calls += len(sites)
            nm = p.split("::")[0] + " " + "::".join(p.split("::")[-2:])
            dyn = [s for s in sites if not constant_print(s[1])]
            if not dyn:
                c.rule(nm + " prints no secret", b, True, "%d print sites reachable, none prints a run-time value" % len(sites), "printed text is constant")
                return
            if how == "types":
                done = {c.body(q)["h"] for q, _, k in SECRETS if k is None and c.db.find(q)}
                bad, n = [], 0
                for x, node, q in dyn:
                    if owner(c.db, x)["h"] in done:
                        continue
                    for ty in printed_types(x, node):
                        n += 1
                        if re.search(r"Fp<|Polynomial|FWitness|::Wire|::Gate|Circuit|Parser\b", ty):
                            bad.append("%s prints a value of type %s" % (node["sp"], ty))
                c.rule(nm + " prints no secret", b, not bad, "; ".join(bad) or "%d values printed outside the functions summarised above, none of a witness-carrying type" % n,
                       "no value of a witness-carrying type is printed")
                return
            w = c.world()
            o = w.call(b, w.params(b, {}))
            bad = []
            n = 0
            for e in o.effects:
                if e[1] == "print":
                    n += 1
                    for y in tainted(e[2], names):
                        bad.append("%s prints %s (secret %s)" % (e[3], T.show(e[2])[:200], T.show(y)[:80]))
            c.rule(nm + " prints no secret", b, not bad, "; ".join(bad[:3]) or "%d print effects, none depends on a secret" % n,
                   "no printed term depends on a secret except through a hash or a group element")
        c.guard(p, f)

    def f():
        for ty in PUBLIC_TYPES["proof"]:
            a = T.ADTS.get(ty) or next((T.ADTS[q] for q in T.ADTS if q.split("::")[-1] == ty.split("::")[-1] and q.split("::")[0] == ty.split("::")[0]), None)
            if not a:
                continue
            bad = []
            cr = c.db.crates[ty.split("::")[0]]
            for n, t, p in a["v"][0]["f"]:
                s = cr.types[t]["s"]
                if re.search(r"Polynomial|FWitness|StdRng|ThreadRng|Circuit\b|Parser", s) and "CommonPreprocessedInput" not in ty:
                    bad.append("%s: %s" % (n, s))
            c.rule("%s carries no witness" % ty, ty, not bad, "; ".join(bad) or "%d fields" % len(a["v"][0]["f"]), "field types of public objects")
    c.guard("public types", f)


def printed_types(x, node):
    for y in lint.nodes(node.get("args") or []):
        if y["k"] == "call" and re.search(r"Argument.*::new_(display|debug|lower|upper|pointer|octal|binary)", y.get("fn") or ""):
            for g in y.get("args") or []:
                t = x["crate"].types[g["t"]]
                while t["k"] == "ref":
                    t = x["crate"].types[t["t"]]
                yield t["s"]


def constant_print(node):
    """the call prints a literal"""
    a = node.get("args") or []
    for x in lint.nodes(a):
        if x["k"] in ("var", "field", "upvar", "index", "deref"):
            return False
        if x["k"] == "call" and "fmt" not in (x.get("fn") or ""):
            return False
    return True
