"""C07 travel time of every step."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.stats import kstest

from pbt import gen, ref, sim
from pbt.core import Sub, ensure


@st.composite
def cases(draw, **kw):
    d = draw(sim.scenarios(hi=11, npmax=6, roi=draw(st.booleans()), tracked=draw(st.booleans()), **kw))
    d["t0"] = draw(st.sampled_from([0, 0.0, 5, 123.5, 1000000.5, 87654321.25, -50.25, -3, 1000]))
    if draw(st.integers(0, 7)) == 7:      # a thin film of water
        d["depth"] = [[2.0 ** -8 * v for v in r] for r in d["depth"]]
        d["dry"] *= 2.0 ** -8
    elif draw(st.integers(0, 15)) == 15:
        d["dry"] = draw(st.sampled_from([1.5, 2.5]))
    if d["diff"] and draw(st.integers(0, 7)) == 7:
        d["diff"] = draw(st.sampled_from([2.0, 2.5, 3.0]))
    if draw(st.integers(0, 3)) == 3:      # velocities instead of discharge
        d["u"], d["v"] = d.pop("qx"), d.pop("qy")
    return d


def check(case, ctx):
    R = ref.RefDomain(case)
    P, w = sim.simulate(case)
    half = R.diff / 2.0
    used = 0
    kinds = set()
    for p in range(len(case["seeds"])):
        path = ref.path(w, p)
        t = w["travel_times"][p]
        ensure(t[0] == case["t0"], "particle %d starts at time %r, seed time is %r", p, t[0], case["t0"])
        for k in range(1, len(path)):
            dt = t[k] - t[k - 1]
            ensure(math.isfinite(t[k]), "particle %d, entry %d: travel time %r", p, k, t[k])
            ensure(dt >= 0 or half > 1, "particle %d, entry %d: time went back by %r", p, k, dt)
            want, tol = R.travel(*path[k - 1], *path[k])
            slack = 1e-14 * 8 * abs(t[k])
            if want is None:
                ensure(dt <= tol * (1 + half) * (1 + 1e-9) + slack,
                       "particle %d, step %r -> %r: time %r exceeds %r", p, path[k - 1], path[k], dt, tol)
                kinds.add("stagnant origin")
                continue
            lo, hi = want * (1 - half), want * (1 + half)
            tol = tol * (1 + half) + slack
            ensure(lo - tol <= dt <= hi + tol,
                   "particle %d, step %r -> %r took %r, the velocity law gives %r%s", p, path[k - 1], path[k],
                   dt, want, "" if half == 0 else " times a factor within 1 -+ %g" % half)
            used += want > 0
            if want == 0:
                kinds.add("backward or sideways step")
            if ref.DIST[ref.NB.index((path[k][0] - path[k - 1][0], path[k][1] - path[k - 1][1]))] > 1:
                kinds.add("diagonal step")
            if half:
                kinds.add("diffusion")
    for k in kinds:
        ctx.label(k)
    sim.domain_labels(case, ctx)
    ctx.nontrivial(used >= 2)


@st.composite
def diff_cases(draw):
    L, W = draw(gen.shapes(6, 9))
    return dict(L=L, W=W, dx=draw(st.sampled_from([1.0, 50.0])), model=draw(st.sampled_from([None, "DeltaRCM"])),
                depth=[[1.0] * W] * L, stage=[[1.0] * W] * L,
                qx=[[draw(st.sampled_from([1.0, -0.5, 0.25]))] * W] * L,
                qy=[[draw(st.sampled_from([0.25, 1.0, -2.0]))] * W] * L,
                theta=1.0, gamma=0.05, dry=0.1, diff=draw(st.sampled_from([0.2, 1.0, 2.0, 0.01, 1.5])),
                sd=draw(st.booleans()), cell_type=[[0] * W] * L,
                seeds=[[L // 2, W // 2]] * 250, rng=draw(gen.rng_seed),
                ops=[draw(st.sampled_from([["step", 2], ["target", 1e6, 2]]))])


def check_diff(case, ctx):
    R = ref.RefDomain(case)
    P, w = sim.simulate(case)
    f = []
    table = {}
    for p in range(len(case["seeds"])):
        path, t = ref.path(w, p), w["travel_times"][p]
        for k in range(1, len(path)):
            want, tol = R.travel(*path[k - 1], *path[k])
            if want:
                f.append(((t[k] - t[k - 1]) / want - 1) / R.diff + 0.5)
                table[p, k] = f[-1] - 0.5
    ctx.label("diff=%s" % R.diff)
    if len(f) < 60:
        return
    q = kstest(f, "uniform").pvalue
    ensure(q > 1e-9, "diffusion factors are not uniform on 1 -+ %g: p=%.2g, min %g, max %g, mean %g",
           R.diff / 2, q, min(f), max(f), float(np.mean(f)))
    ensure(len(set(round(x, 7) for x in f)) > 0.9 * len(f), "diffusion factors repeat: %s", f[:6])
    a = np.array(f) - 0.5
    r = float(np.mean(a[1:] * a[:-1]) * 12)
    ensure(abs(r) * math.sqrt(len(a)) < 7, "successive diffusion factors are correlated (r=%g)", r)
    n = len(case["seeds"])
    for what, shift in [("the two steps of a particle", lambda p, k: (p, k + 1)), ("neighbouring particles", lambda p, k: (p + 1, k)),
                        ("particles of the two halves", lambda p, k: (p + n // 2, k)),
                        ("every other particle", lambda p, k: (p + 2, k))]:
        pairs = [(x, table[shift(*q)]) for q, x in table.items() if shift(*q) in table]
        if len(pairs) > 60:
            r = 12 * sum(x * y for x, y in pairs) / len(pairs)
            ensure(abs(r) * math.sqrt(len(pairs)) < 7, "diffusion factors of %s are correlated (r=%g)", what, r)
            s = 180 * sum((x * x - 1 / 12) * (y * y - 1 / 12) for x, y in pairs) / len(pairs)
            ensure(abs(s) * math.sqrt(len(pairs)) < 9, "sizes of the diffusion factors of %s are correlated (r=%g)", what, s)
    first = {}
    for (p, k), x in table.items():
        first.setdefault(tuple(np.subtract(ref.path(w, p)[k], ref.path(w, p)[k - 1])), []).append(x)
    for to, x in first.items():
        if len(x) >= 40:
            q = kstest(np.array(x) + 0.5, "uniform").pvalue
            ensure(q > 1e-9, "diffusion factors of steps towards %r are not uniform: p=%.2g, mean %g", to, q, float(np.mean(x)))
    ctx.nontrivial()


SUBS = [
    Sub("law", lambda: cases(), check, 4000, 60000,
        "random domain (discharge or velocity given, stagnant cells), seed times, step and target-time runs; "
        "every recorded step compared with the law (interval if diffusion is on); non-trivial if two or more "
        "steps have a positive expected time"),
    Sub("law-large", lambda: cases(lo=8, max_steps=60, max_lim=80), check, 500, 8000, "longer walks"),
    Sub("diffusion", diff_cases, check_diff, 160, 2000,
        "250 particles, two steps each: recovered factors tested for uniformity (Kolmogorov-Smirnov, 1e-9), "
        "distinctness and serial correlation; non-trivial if 60 or more factors"),
    sim.bulk(check, extra=dict(t0=20)),
]
ASSUMPTIONS = ["cells with speed below 1e-6 have no meaningful flow direction: only bounds are checked there"]
