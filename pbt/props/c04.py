"""C04 routing weights equal the documented formula."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure


@st.composite
def cases(draw, **kw):
    """Also velocities, single precision, strange exponents, and settings that have nothing to do with the law."""
    d = draw(gen.domains(**kw))
    if draw(st.integers(0, 3)) == 2:
        d["u"], d["v"] = d.pop("qx"), d.pop("qy")
    d["theta"] = draw(st.sampled_from([d["theta"]] * 4 + [-1.0, -0.5] + [d["theta"]] * 2))
    if max(v for r in d["depth"] for v in r) > 2:
        d["dry"] = draw(st.sampled_from([d["dry"]] * 3 + [1.5, 4.0] + [d["dry"]] * 2))
    d["diff"] = draw(st.sampled_from([d["diff"], 2.0, 2.5, -1.0, d["diff"]]))
    d["single"] = draw(st.booleans())
    if draw(st.integers(0, 2)) == 1:
        d["roi"] = [[int((3 * i + j) % 4 == 0) for j in range(d["W"])] for i in range(d["L"])]
    return d


def compare(case, ctx):
    R = ref.RefDomain(case)
    exact = all(np.array_equal(np.array(case[k], "float32"), np.array(case[k], float), equal_nan=True)
                for k in ("depth", "stage", "qx", "qy") if k in case) and "u" not in case
    P = gen.make_particles(case, "float32" if exact and case.get("single") else "float64")
    Wt = np.array(P.weight, float)
    L, W = case["L"], case["W"]
    ensure(Wt.shape == (L, W, 9), "weights have shape %r for a %dx%d grid", Wt.shape, L, W)
    n_dead = n_law = n_mixed = 0
    for i in range(L):
        for j in range(W):
            got, tot = ref.normalise(Wt[i, j])
            want, dead, doubtful = R.weights(i, j)
            if doubtful:
                ctx.label("doubtful cell")
                continue
            ensure(not (np.nan_to_num(Wt[i, j]) < 0).any(), "negative weight at (%d, %d): %r", i, j, Wt[i, j])
            for k in range(9):
                ensure(abs(got[k] - want[k]) <= 1e-9,
                       "cell (%d, %d): probability of going %s is %r, the law gives %r; all: %s, law: %s",
                       i, j, ref.NB[k], float(got[k]), want[k], got.round(6).tolist(),
                       [round(x, 6) for x in want])
            if R.border(i, j):
                continue
            if dead:
                n_dead += 1
            else:
                n_law += 1
                if sum(x > 0 for x in want) >= 2:
                    n_mixed += 1
    if n_dead:
        ctx.label("dead ends")
    ctx.label("cells under the law", n_law)
    ctx.label("cells with two or more destinations", n_mixed)
    ctx.label("model=%s" % case.get("model"))
    ctx.nontrivial(n_mixed > 0)


RULE = ("random domain (flat, sloping, rough, pits; uniform, noisy, rotating, zero discharge; NaN), theta, gamma, "
        "dry depth, cell types; all cells compared; non-trivial if some cell has two or more destinations")
SUBS = [
    Sub("law", lambda: cases(hi=9), compare, 6000, 100000, RULE),
    Sub("law-large", lambda: cases(lo=8, hi=24), compare, 160, 3000, "the same on grids up to 24x24"),
]


SUBS.append(Sub("law-bulk", lambda: sim.bulk_cases(ns=(5,), max_ops=1), lambda case, ctx: compare(sim.expand(case), ctx), 24, 400,
                "rasters of up to 40x120 and 130x24 cells, described by sizes and a seed; non-trivial as above"))
