"""C03 from wet cells particles step only to wet, non-land cells (or, in a dead end, the deepest cell)."""
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure


def check(case, ctx):
    R = ref.RefDomain(case)
    P, w = sim.simulate(case)
    inferred = case.get("cell_type") is None
    judged = dead_steps = near_dry = 0
    for p in range(len(case["seeds"])):
        path = ref.path(w, p)
        start_wet = R.wet(*path[0])
        for k in range(1, len(path)):
            o, t = path[k - 1], path[k]
            if not R.wet(*o) or R.border(*o):
                continue
            wt, dead, doubtful = R.weights(*o)
            if doubtful:
                continue
            judged += 1
            if dead:
                dead_steps += 1
                m = max(R.depth[o[0] + a, o[1] + b] for a, b in ref.NB)
                ensure(R.depth[t] == m, "particle %d: dead end %r, step to %r (depth %r) is not to a "
                       "deepest cell (depth %r)", p, o, t, float(R.depth[t]), float(m))
            else:
                ensure(R.wet(*t), "particle %d stepped from the wet cell %r to %r (depth %r, dry depth %r, "
                       "cell type %d)", p, o, t, float(R.depth[t]), R.dry, int(R.ct[t]))
                near_dry += any(not R.wet(o[0] + a, o[1] + b) for a, b in ref.NB)
        if start_wet and inferred:
            for k, c in enumerate(path):
                ensure(R.depth[c] > R.dry and R.ct[c] != 2,
                       "particle %d started in water at %r but entry %d is on land at %r (depth %r)",
                       p, path[0], k, c, float(R.depth[c]))
    if dead_steps:
        ctx.label("dead-end steps")
    if near_dry:
        ctx.label("steps past dry cells")
    sim.domain_labels(case, ctx)
    ctx.nontrivial(bool(near_dry or dead_steps))


@st.composite
def threshold_cases(draw):
    """Many cells at, just below and just above the dry depth."""
    d = draw(sim.scenarios(lo=5, hi=9, npmin=3, npmax=8, water="wet", nan=False, celltypes=False, op_hi=2))
    L, W = d["L"], d["W"]
    dry = draw(st.sampled_from([0.1, 0.01, 0.5, 0.0123, 0.25, 0.3]))
    eps = draw(st.sampled_from([1e-7, 1e-9, 1e-6, 1e-12, 1e-4, 1e-2]))
    m = draw(gen.blob(L * W))
    for i in range(L):
        for j in range(W):
            k = m[i * W + j] % 6
            if k:
                d["depth"][i][j] = dry * [1, 1 + eps, 1 - eps, 1 - eps, 1, 1 + 2 * eps][k]
    d["dry"] = dry
    d["theta"] = draw(st.sampled_from([1.0, 0.0, 0.5]))
    if draw(st.integers(0, 2)):
        d["cell_type"] = [[2 if x % 16 == 5 else x // 16 % 2 for x in m[i * W:i * W + W]] for i in range(L)]
    return d


SUBS = [
    Sub("threshold", threshold_cases, check, 500, 8000, "cells at the dry depth and below or above it by a trillionth to a hundredth of it"),
    Sub("wet", lambda: sim.scenarios(hi=11, npmax=8), check, 5000, 80000,
        "random depth with dry cells, islands, pits, NaN and thresholds, given or inferred cell types; "
        "non-trivial if a step was taken next to a dry or land cell, or out of a dead end"),
    Sub("wet-large", lambda: sim.scenarios(lo=8, hi=20, npmax=20, max_steps=60, max_lim=80, op_hi=3),
        check, 500, 8000, "the same on grids up to 20x20"),
    sim.bulk(check),
]
