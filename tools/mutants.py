#!/usr/bin/env python3
"""Self-test of the checks: apply small edits to a scratch copy of /repo and report what the checks say.
usage: mutants.py [-k substring] [-p PROP,PROP] [-s i/n (every n-th, from i)] ; edits live in tools/mutants.txt:
  ## name | props expected to report (or 'quiet') | extra props to run
  file
  <<<<
  old text
  ====
  new text
  >>>>   (several file blocks may follow)
"""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mutw%d" % os.getpid()


def load():
    out, cur = [], None
    txt = open(os.path.join(V, "tools", "mutants.txt")).read().split("\n")
    i = 0
    while i < len(txt):
        l = txt[i]
        if l.startswith("## "):
            n, exp, *run = [x.strip() for x in l[3:].split("|")]
            cur = dict(name=n, expect=exp.split(","), run=run[0].split(",") if run and run[0] else [], edits=[])
            out.append(cur)
        elif l == "<<<<":
            f = txt[i - 1].strip()
            j = txt.index("====", i)
            k = txt.index(">>>>", j)
            cur["edits"].append((f, "\n".join(txt[i + 1:j]), "\n".join(txt[j + 1:k])))
            i = k
        i += 1
    return out


def main():
    a = sys.argv[1:]
    key = a[a.index("-k") + 1] if "-k" in a else ""
    props = a[a.index("-p") + 1].split(",") if "-p" in a else None
    shard, of = map(int, a[a.index("-s") + 1].split("/")) if "-s" in a else (0, 1)
    bad = 0
    for n, m in enumerate([m for m in load() if key in m["name"]]):
        if n % of != shard:
            continue
        exp = m["expect"]
        run = props or ([p for p in exp if p != "quiet"] + m["run"])
        if os.path.exists(W):
            shutil.rmtree(W)
        shutil.copytree("/repo", W, ignore=shutil.ignore_patterns("target", ".git"))
        ok = True
        for f, old, new in m["edits"]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(old) < 1:
                print("%s: text not found in %s: %r" % (m["name"], f, old[:80]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new, 1))
        if not ok:
            bad += 1
            continue
        r = subprocess.run([os.path.join(V, "extract.sh"), W, W + "thir"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("%s: does not compile\n%s" % (m["name"], r.stdout[-1500:]))
            bad += 1
            continue
        res = []
        for p in run:
            env = dict(os.environ, VERIF_THIR=W + "thir", VERIF_EVIDENCE=W + "ev")
            r = subprocess.run("ulimit -s 500000; timeout 880 python3 %s/check.py %s" % (V, p), shell=True, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1
            want = p in exp
            und = r.stdout.count("[undecided]")
            res.append("%s:%s%s" % (p, "VIOLATION" if hit else "rc%d" % r.returncode if r.returncode else "quiet", "(%d und)" % und if und else ""))
            if hit != want:
                bad += 1
                res[-1] += " <-- UNEXPECTED"
                if hit:
                    res.append("\n     " + "\n     ".join(l for l in r.stdout.splitlines() if "[violated]" in l)[:900])
        print("%-45s %s" % (m["name"], " ".join(res)), flush=True)
    for d in (W, W + "thir", W + "ev"):
        shutil.rmtree(d, ignore_errors=True)
    print("unexpected: %d" % bad)


main()
