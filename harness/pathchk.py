"""Programs over sim.py's subset, run through the real parser, with the aspects of each event the checks C18-C22 look at."""
import nc, sim
from sim import near


def preamble():
    pre = []
    for p in nc.PTYPES:
        pre += nc.profile(p).preamble()
    return pre


def programs(r, n, weights, kinds=(None,), lo=5, hi=40, **mkw):
    cases, meta = [], []
    for k in range(n):
        kind, pt, st, inch = sim.machine(r, r.choice(kinds), **mkw)
        p = sim.Prog(r, kind, pt, st, inch, weights)
        out = p.run(r.randint(lo, hi))
        cases.append(sim.case(pt, st, out))
        meta.append((kind, pt, st, out))
    return cases, meta


def judged(ck, r, n, weights, kinds=(None,), **kw):
    """Yields (kind, ptype, settings, out, events, replay, stop) per program that ran to its end."""
    pre = preamble()
    cases, meta = programs(r, n, weights, kinds, **kw)
    for c, R, (kind, pt, st, out) in zip(cases, nc.run_cases(pre, cases), meta):
        if R["crash"]:
            ck.crash(c, R["crash"], pre=pre)
            continue
        rep = lambda c=c: nc.script(pre) + nc.script(c)
        yield kind, pt, st, out, R["ev"][4:], rep


def path_ok(e, v):
    """'' | 'g18' (the other sense in the ZX plane) | key of a finding | None"""
    w, f = v["pr"][1:3]
    if near(w, e.work, e.tol) and near(f, e.fast, e.tol if e.kind == "cycle" else 1e-6):
        return ""
    if e.g18 is not None and near(w, e.g18, e.tol) and near(f, e.fast, 1e-6):
        return "g18"
    for l, q, key in e.alts:
        if near(w, l, e.tol) and near(f, q, e.tol):
            return key
    return None


def pos_diff(e, v, axes="XYZ"):
    for a in axes:
        w, x = v["wr"].get(a), (e.rng[a][0], e.pos[a], e.rng[a][1])
        if w is None or not all(near(p, q, 1e-6) for p, q in zip(w, x)):
            return "range of %s (min, current, max) is %r, expected %r" % (a, w, x)
    return None


def where(pt, st, out, i, n=6):
    return "%s, block %d %r after %r; cnc %s, kinematics %s, zero point %s" % (
        pt, i, out[i][0], [t for t, e in out[max(0, i - n):i]], st["cnc"], st["kin"], st["zp"])
