"""C01 histories are D8-connected paths inside the grid."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, sim
from pbt.core import Sub, ensure


def path_ok(case, w):
    L, W = case["L"], case["W"]
    for p in range(len(w["xinds"])):
        xs, ys = w["xinds"][p], w["yinds"][p]
        for k, (x, y) in enumerate(zip(xs, ys)):
            ensure(int(x) == x and int(y) == y, "particle %d entry %d: (%r, %r) is not a cell", p, k, x, y)
            ensure(0 <= x < L and 0 <= y < W,
                   "particle %d entry %d: (%r, %r) is outside the %dx%d grid; path %s",
                   p, k, x, y, L, W, list(zip(xs, ys))[:k + 1][-4:])
            if k:
                dx, dy = abs(x - xs[k - 1]), abs(y - ys[k - 1])
                ensure(dx <= 1 and dy <= 1 and (dx or dy),
                       "particle %d: consecutive entries %r -> %r are not neighbouring cells", p,
                       (xs[k - 1], ys[k - 1]), (x, y))
        ensure([xs[0], ys[0]] == case["seeds"][p], "particle %d does not start at its seed", p)


def check(case, ctx):
    P, w = sim.simulate(case, lambda k, op, P, w: path_ok(case, w))
    path_ok(case, w)
    path_ok(case, P.walk_data)
    sim.domain_labels(case, ctx)
    L, W = case["L"], case["W"]
    moved = max(len(x) for x in w["xinds"])
    border = any(s[0] in (0, L - 1) or s[1] in (0, W - 1) for s in case["seeds"])
    touch = any(x in (0, L - 1) or y in (0, W - 1)
                for xs, ys in zip(w["xinds"], w["yinds"]) for x, y in zip(xs[1:], ys[1:]))
    if border:
        ctx.label("border seed")
    if touch:
        ctx.label("walked onto the border")
    if moved > 5:
        ctx.label("long path")
    ctx.nontrivial(moved >= 3 or border)


@st.composite
def long_cases(draw):
    """Rasters of up to tens of thousands of rows or columns, described by a formula."""
    n = draw(st.sampled_from([130, 300, 260, 1000, 129, 257, 33000, 70000, 300]))
    m = draw(st.sampled_from([3, 5, 7]))
    L, W = draw(st.sampled_from([[n, m], [m, n]]))
    seeds = []
    for where, off, c in draw(st.lists(st.tuples(st.sampled_from(["end", "border", "middle", 127, 255, 32767, 65535]),
                                                 st.integers(-6, 3), st.integers(0, 6)), min_size=1, max_size=4)):
        a = dict(end=n - 3 - abs(off), middle=n // 2 + off, border=n - 1).get(where, where if where in ("end", "middle", "border")
                                                                           else where + off)
        a = min(max(a, 0), n - 1)
        seeds.append([a, c % m] if L == n else [c % m, a])
    u, v = draw(st.sampled_from([[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [0.0, -1.0], [0.5, 1.0], [0.0, 0.0]]))
    return dict(L=L, W=W, seeds=seeds, u=u, v=v, rough=draw(st.integers(0, 5)), model=draw(st.sampled_from([None, "DeltaRCM"])),
                sd=draw(st.booleans()), framed=draw(st.booleans()), dx=draw(st.sampled_from([1.0, 50.0])),
                ops=draw(sim.op_lists(1, 3, 12, 20)), rng=draw(gen.rng_seed))


def check_long(case, ctx):
    d = dict(case)
    i, j = np.indices((case["L"], case["W"]))
    r = (i * 7 + j * 13) % 5 * (case["rough"] / 16.0)
    d.update(depth=1.0 + r, stage=0.125 * r, qx=case["u"] + r / 8, qy=case["v"] - r / 8, diff=0.5)
    if not case["framed"]:
        d["cell_type"] = np.zeros((case["L"], case["W"]), int)
    P, w = sim.simulate(d, lambda k, op, P, w: path_ok(d, w))
    path_ok(d, P.walk_data)
    ctx.label("over 32767" if max(case["L"], case["W"]) > 32767 else "under 32767")
    ctx.nontrivial(max(len(x) for x in w["xinds"]) >= 3)


SUBS = [
    Sub("paths", lambda: sim.scenarios(), check, 4000, 60000,
        "random domain, cell types, seeds on any cell and a mix of single steps and target-time runs; "
        "non-trivial if some particle is seeded on the border or records 3 or more positions"),
    Sub("large", lambda: sim.scenarios(lo=8, hi=22, npmax=20, max_steps=80, max_lim=100, op_hi=3), check,
        300, 6000, "the same on grids up to 22x22 with up to 20 particles and long walks"),
    Sub("long", long_cases, check_long, 160, 2500, "rasters of 129 to 70000 rows or columns and 3 to 7 of the other, seeds at the far "
        "end, on its border, in the middle and around 127, 255, 32767 and 65535; non-trivial if some particle records 3 or more positions"),
    sim.bulk(check),
]
