"""Facts that must hold in every interpretation built by a rule."""
from . import rieval as RI


def trial(c, name, anchor, rule, f, n=24, budget=60, need=1):
    """f(E, i) -> None (not applicable) or a list of (fact, holds); every fact must hold in every interpretation"""
    import time
    t0 = time.time()
    done, und, why, bad, facts = 0, 0, "", None, 0
    n = n * (4 if c.thorough else 1)
    for i in range(n):
        if time.time() - t0 > budget * (4 if c.thorough else 1):
            break
        E = RI.Env((c.seed, i), [1, 2, 2, 3])
        try:
            r = f(E, i)
        except (RI.Und, RI.Oob, RecursionError) as e:
            und += 1
            why = "%s: %s" % (type(e).__name__, e)
            continue
        if r is None:
            continue
        done += 1
        facts += len(r)
        for what, ok in r:
            if not ok:
                bad = what
                break
        if bad:
            break
    c.samples_total += done
    if bad:
        return c.add(name, "violated", anchor, bad, rule)
    if done < need:
        return c.add(name, "undecided", anchor, "no decided interpretation: " + why, rule)
    return c.add(name, "agree", anchor, "%d facts over %d interpretations (%d undecided)" % (facts, done, und), rule)


def choose(E, t, v):
    """interpret the atom t by v"""
    k = RI.free_key(E, t, {})
    if k is None:
        raise RI.Und("not an atom")
    E.set(k, v)
