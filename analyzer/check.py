"""Running the rules of one property: obligations, verdicts, known findings, evidence."""
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback
from . import terms as T, models, rieval as RI
from .terms import raw, TRUE, FALSE, ite, And, Or, Not
from .interp import DB, Undecided
from .api import World, Outcome, Missing, PANIC

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {}      # id -> function(Ctx)
RULES = {}      # id -> one-line rule text


def prop(pid, rule):
    def d(f):
        PROPS[pid] = f
        RULES[pid] = rule
        return f
    return d


TOTAL = 700  # seconds for all obligations of one check


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def fan(f, xs, workers=8):
    """[f(x) for x in xs], in forked workers"""
    xs = list(xs)
    out = [None] * len(xs)
    todo = list(range(len(xs)))[::-1]
    run = {}
    try:
        while todo or run:
            while todo and len(run) < workers:
                i = todo.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(r)
                        signal.alarm(0)
                        try:
                            d = ("ok", f(xs[i]))
                        except RecursionError:
                            d = ("err", "term too deep")
                        except Exception as e:
                            d = ("err", "%s: %s" % (type(e).__name__, e))
                        with os.fdopen(w, "wb") as fh:
                            pickle.dump(d, fh)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                run[r] = (pid, i)
            for r in select.select(list(run), [], [])[0]:
                pid, i = run.pop(r)
                with os.fdopen(r, "rb") as fh:
                    data = fh.read()
                os.waitpid(pid, 0)
                out[i] = pickle.loads(data) if data else ("err", "worker ended")
    finally:
        for r, (pid, i) in run.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
    return [v if k == "ok" else RI.Cmp("undecided", reason=v) for k, v in out]


class Ctx:
    def __init__(self, pid, tier, seed, db):
        self.pid, self.tier, self.seed, self.db = pid, tier, seed, db
        self.obs = []
        self.t0 = time.time()
        self.analysed = set()
        self.loops = self.calls = 0
        self.worlds = []
        self.thorough = tier == "thorough"
        self.samples_total = 0

    # ------------------------------------------------------------ worlds
    def world(self):
        w = World(self.db)
        self.worlds.append(w)
        return w

    def body(self, path):
        b = self.db.find(path)
        if b is not None:
            return b
        # the function may have moved: unique function of that (owner and) name in the crate
        cr = path.split("::")[0]
        q = path.split("::")[1:]
        c = [b for b in self.db.by_h.values() if b["kind"] in ("Fn", "AssocFn") and b["crate"].name == cr
             and b["path"].split("::")[-1] == q[-1]]
        if len(q) >= 2 and q[-2][:1].isupper():
            c = [b for b in c if q[-2] in b["path"]]
        if len(c) == 1:
            return c[0]
        raise Missing(path)

    def loc(self, b):
        if b is None:
            return ""
        if isinstance(b, str):
            return b
        return "%s (%s)" % (b["path"], b["span"])

    # ------------------------------------------------------------ obligations
    def guard(self, name, f, limit=None):
        """run one group of obligations; what cannot be analysed is undecided, never a violation"""
        limit = limit or (600 if self.thorough else 240)
        left = TOTAL - (time.time() - self.t0)
        limit = max(1, min(limit, int(left)))
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        n0 = len(self.obs)
        try:
            f()
        except Missing as e:
            self.add(name, "undecided", "", "anchor not found: %s" % e)
        except Undecided as e:
            self.add(name, "undecided", "", "analysis gave up: %s" % e)
        except Timeout:
            self.add(name, "undecided", "", "analysis exceeded %d s" % limit)
        except RecursionError:
            self.add(name, "undecided", "", "term too deep")
        except MemoryError:
            self.add(name, "undecided", "", "analysis ran out of memory")
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add(name, "undecided", "", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
        finally:
            signal.alarm(0)
            models.DOMOK[0] = True
        return self.obs[n0:]

    def add(self, name, verdict, anchor, detail, rule="", **kw):
        o = dict(name=name, verdict=verdict, anchor=self.loc(anchor) if anchor else "", detail=detail, rule=rule)
        o.update(kw)
        self.obs.append(o)
        return o

    def same(self, name, anchor, spec, got, assume=TRUE, rule="the function's value-graph summary equals the prescribed term", n=None, budget=None, choices=None, pool=6):
        """obligation: two summaries denote the same function"""
        st, ss = parts(spec)
        gt, gs = parts(got)
        c = compare(st, ss, gt, gs, assume, n or (240 if self.thorough else 80), self.seed, budget or (90 if self.thorough else 25), choices, pool)
        self.samples_total += c.samples
        if c.verdict == "identical":
            return self.add(name, "proved", anchor, "same value number", rule)
        if c.verdict == "agree":
            return self.add(name, "agree", anchor, "%d random interpretations agree (%d not refused, %d undecided)" % (c.samples, c.nonpanic, c.und), rule)
        if c.verdict == "differ":
            d, w = c.witness
            return self.add(name, "violated", anchor, d, rule, witness=w, spec=T.show(st)[:6000], found=T.show(gt)[:6000])
        return self.add(name, "undecided", anchor, "no decided interpretation: " + c.reason, rule)

    def accepts(self, name, anchor, conjs, got, rank=None, n=None, budget=None, choices=None, only=None, panics=False,
                rule="accepted exactly when every prescribed condition holds: each condition is broken in turn while the others hold"):
        """obligation: an accept/reject decision is the conjunction of the named conditions"""
        gt, gs = parts(got)
        cs = [x[1] for x in conjs]
        mix = lambda r: [mix(y) for y in r] if isinstance(r, list) else {**(rank or {}), **r}
        ranks = [mix(x[2] if len(x) > 2 else {}) for x in conjs]
        js = [None] + list(range(len(conjs)) if only is None else only)
        aims = RI.steering([gt], cs)
        rs = fan(lambda j: RI.decide(cs, j, gt, j is None, n or (80 if self.thorough else 36), self.seed, budget or (120 if self.thorough else 25), gs, ranks, choices, panics, aims), js)
        for j, r in zip(js, rs):
            self.samples_total += r.samples
            nm = name + (": accepts when all conditions hold" if j is None else ": refuses when not (%s)" % conjs[j][0])
            if r.verdict == "differ":
                g, w = r.witness
                self.add(nm, "violated", anchor, "all conditions hold but the answer is %s" % ("refusal" if g is False else g) if j is None else
                         "condition '%s' fails, every other condition holds, and the answer is %s" % (conjs[j][0], "acceptance" if g is True else g),
                         rule, witness=w, spec=T.show(cs[j])[:3000] if j is not None else "", found=T.show(gt)[:3000])
            else:
                self.add(nm, r.verdict, anchor, "%d random interpretations (%d undecided) %s" % (r.samples, r.und, r.reason), rule)

    def refuses(self, name, anchor, conjs, extra, got, rank=None, n=None, budget=None, choices=None,
                rule="no proof that satisfies every other condition is accepted in the named situation"):
        gt, gs = parts(got)
        cs = [extra] + conjs
        mix = lambda r: [mix(y) for y in r] if isinstance(r, list) else {**(rank or {}), **r}
        ranks = [mix(x[2] if len(x) > 2 else {}) for x in cs]
        r = RI.decide([x[1] for x in cs], None, gt, False, n or (80 if self.thorough else 36), self.seed, budget or (120 if self.thorough else 25), gs, ranks, choices)
        self.samples_total += r.samples
        if r.verdict == "differ":
            g, w = r.witness
            self.add(name, "violated", anchor, "accepted although %s" % extra[0] if g is True else str(g), rule, witness=w, spec=T.show(extra[1])[:3000], found=T.show(gt)[:3000])
        else:
            self.add(name, r.verdict, anchor, "%d random interpretations (%d undecided) %s" % (r.samples, r.und, r.reason), rule)

    def rule(self, name, anchor, ok, detail, rule=""):
        """obligation decided by a structural / dependence rule"""
        return self.add(name, "proved" if ok else ("undecided" if ok is None else "violated"), anchor, detail, rule)

    # ------------------------------------------------------------ result
    def finish(self, t0):
        known = []
        kf = os.path.join(V, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))["findings"] if k["property"] == self.pid and k["status"] == "open"]
        viol = [o for o in self.obs if o["verdict"] == "violated"]
        out = []
        new = []
        for o in viol:
            k = [k for k in known if k["obligation"] == o["name"] and (not k.get("match") or k["match"] in o["detail"])]
            if k:
                o["verdict"] = "known-finding"
                line = "KNOWN-FINDING: property=%s %s" % (self.pid, k[0]["what"])
                if line not in out:
                    out.append(line)
            else:
                new.append(o)
        for w in self.worlds:
            self.analysed |= w.I.analysed
            self.calls += w.I.ncalls
            self.loops += w.I.nloops
        cnt = {}
        for o in self.obs:
            cnt[o["verdict"]] = cnt.get(o["verdict"], 0) + 1
        ev = os.path.join(os.environ.get("VERIF_EVIDENCE", os.path.join(V, "evidence")))
        os.makedirs(ev, exist_ok=True)
        rp = os.path.join(ev, "replay-%s.txt" % self.pid)
        if new:
            with open(rp, "w") as f:
                for o in new:
                    f.write("obligation: %s\nat: %s\nrule: %s\nfinding: %s\n" % (o["name"], o["anchor"], o["rule"], o["detail"]))
                    if o.get("witness"):
                        f.write("under the interpretation (other inputs arbitrary):\n  " + "\n  ".join(o["witness"]) + "\n")
                    if o.get("spec"):
                        f.write("prescribed: %s\nfound:      %s\n" % (o["spec"], o["found"]))
                    f.write("\n")
        elif os.path.exists(rp):
            os.remove(rp)
        cov = dict(
            explanation="Static analysis of the type-checked source of the current tree: each function under a rule is abstractly interpreted on "
                        "arbitrary arguments into a value-graph summary (callees inlined, loops solved to closed forms) and the summary is compared "
                        "with the term the property prescribes: same value number (proved), or else by random interpretation of both terms "
                        "(agree / violated with a witness); dependence and effect rules are evaluated on the same summaries. Rule: " + RULES[self.pid],
            functions_analysed=len(self.analysed), functions=sorted(self.analysed), call_sites_resolved=self.calls, loops_summarised=self.loops,
            obligations=len(self.obs), verdicts=cnt, random_interpretations=self.samples_total,
            details=[{k: o[k] for k in ("name", "verdict", "anchor", "detail", "rule")} for o in self.obs])
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2)),
                  open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        for o in self.obs:
            print("  [%s] %s%s" % (o["verdict"], o["name"], ": " + o["detail"] if o["verdict"] not in ("proved",) else ""))
        for l in out:
            print(l)
        if new:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            for o in new:
                print("   %s at %s: %s" % (o["name"], o["anchor"], o["detail"]))
            return 1
        return 0


def parts(x):
    if isinstance(x, Outcome):
        return x.term(), [p[0] for p in x.soft]
    if isinstance(x, tuple):
        return x
    return x, []


def compare(st, ss, gt, gs, assume, n, seed, budget, choices=None, pool=6):
    if st is gt and not (assume is TRUE and False):
        return RI.Cmp("identical")
    return RI.compare(st, gt, n=n, seed=seed, budget=budget, soft=(ss, gs), assume=assume, choices=choices, pool=pool)


def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    repo = os.environ.get("VERIF_REPO", "/repo")
    thir = os.environ.get("VERIF_THIR") or os.path.join(V, "build", "thir-" + pid)
    if not os.environ.get("VERIF_THIR"):
        r = subprocess.run([os.path.join(V, "extract.sh"), repo, thir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-3000:])
            print("the current tree does not type-check: nothing to analyse")
            return 2
    from . import props_kzg, props_fri, props_plonk, props_nova, props_misc  # noqa: F401
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    db = DB(thir)
    c = Ctx(pid, tier, seed, db)
    print("%s (%s): %s" % (pid, tier, RULES[pid]))
    PROPS[pid](c)
    return c.finish(t0)
