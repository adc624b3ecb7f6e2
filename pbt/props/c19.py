"""C19 exposure time is the time each particle spent inside the region."""
import logging
import math
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure

TECHNIQUE = "property-based testing (Hypothesis): reference sum and metamorphic laws over generated walks and masks"


@st.composite
def cases(draw):
    d = draw(gen.walks(max_p=8, max_len=14))
    L, W = d["L"], d["W"]
    if draw(st.integers(0, 3)) == 3:
        first = draw(st.lists(st.sampled_from([0.0, -7.5, 1048576.5, -65536.0]), min_size=len(d["walk"]["xinds"]), max_size=len(d["walk"]["xinds"])))
        d["walk"]["travel_times"] = [[x + a for x in v] for v, a in zip(d["walk"]["travel_times"], first)]
    b, c = draw(gen.blob(L * W)), draw(gen.blob(L * W))
    k = draw(st.sampled_from([2, 3, 1, 5]))
    style = draw(st.sampled_from(["noise", "half", "block", "all", "none", "noise"]))
    m = [[0] * W for _ in range(L)]
    for i in range(L):
        for j in range(W):
            x = b[i * W + j]
            m[i][j] = int(dict(noise=x % (k + 1) > 0, half=j < W // 2, block=(i // 2 + j // 2) % 2 == 0, all=True,
                               none=False)[style])
    d["mask"] = m
    d["more"] = [[int(c[i * W + j] % 4 == 0) for j in range(W)] for i in range(L)]
    d["dtype"] = draw(st.sampled_from(["int64", "uint8", "float64", "int8", "int32"]))
    d["order"] = draw(st.permutations(list(range(len(d["walk"]["xinds"])))))
    d["verbose"] = draw(st.sampled_from([None, None, True]))
    return d


def expected(walk, m):
    out = []
    for p in range(len(walk["xinds"])):
        path = ref.path(walk, p)
        t = walk["travel_times"][p]
        out.append(math.fsum((t[k + 1] - t[k]) * 0.5 * (m[path[k][0]][path[k][1]] + m[path[k + 1][0]][path[k + 1][1]])
                             for k in range(len(path) - 1)))
    return out


class Grab(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())


def close(a, b, t):
    return abs(a - b) <= 1e-9 * (1 + abs(t))


def check(case, ctx):
    import dorado.particle_track as pt
    walk, m = case["walk"], case["mask"]
    n = len(walk["xinds"])
    lg = logging.getLogger("dorado")
    h, lv = Grab(), lg.level
    hs = list(lg.handlers)
    lg.handlers[:] = [h]
    lg.setLevel("INFO")
    try:
        kw = {} if case["verbose"] is None else dict(verbose=case["verbose"])
        got = pt.exposure_time(walk, case.get("same", gen.arr(m, case["dtype"], n + m[0][0])), **kw)
    finally:
        lg.setLevel(lv)
        lg.handlers[:] = hs
    ensure(isinstance(got, list) and len(got) == n, "%d exposure times for %d particles: %r", len(got), n, got)
    want = expected(walk, m)
    T = [v[-1] - v[0] for v in walk["travel_times"]]
    for p in range(n):
        ensure(isinstance(got[p], float), "exposure time %r", got[p])
        ensure(close(got[p], want[p], T[p]), "particle %d on %r at times %r: exposure %r, expected %r", p,
               [(c, m[c[0]][c[1]]) for c in ref.path(walk, p)], walk["travel_times"][p], got[p], want[p])
        ensure(-1e-9 <= got[p] <= T[p] * (1 + 1e-9) + 1e-9, "particle %d: exposure %r, elapsed %r", p, got[p], T[p])
    # who is still inside
    inside = [p for p in range(n) if len(walk["xinds"][p]) > 1
              and m[walk["xinds"][p][-1]][walk["yinds"][p][-1]] == 1]
    named = []
    for t in h.msgs:
        f = re.search(r"\[([\d, ]*)\]", t)
        if f:
            named += [int(x) for x in f.group(1).split(",") if x.strip()]
    one = {p for p in range(n) if len(walk["xinds"][p]) == 1}
    ensure(set(inside) <= set(named) <= set(inside) | one and len(set(named)) == len(named),
           "particles %r are inside at the end, reported are %r", inside, named)
    # complement
    inv = pt.exposure_time(walk, 1 - np.array(m))
    for p in range(n):
        ensure(close(got[p] + inv[p], T[p], T[p]), "particle %d: %r inside + %r outside, elapsed %r", p, got[p], inv[p],
               T[p])
    # a larger region
    big = np.maximum(np.array(m), np.array(case["more"]))
    for p, x in enumerate(pt.exposure_time(walk, big)):
        ensure(x >= got[p] - 1e-9 * (1 + T[p]), "particle %d: exposure %r shrinks to %r in a larger region", p, got[p], x)
    # particle order
    w2 = {f: [walk[f][p] for p in case["order"]] for f in walk}
    for k, x in enumerate(pt.exposure_time(w2, np.array(m))):
        ensure(close(x, got[case["order"][k]], T[case["order"][k]]), "reordering particles changes an exposure time")
    exc = max(sum(1 for a, b in zip(v, v[1:]) if a != b) for v in
              [[m[x][y] for x, y in ref.path(walk, p)] for p in range(n)])
    ctx.label("crossings=%s" % (exc if exc < 4 else "4+"))
    if inside:
        ctx.label("still inside")
    ctx.label(case["dtype"])
    ctx.nontrivial(exc > 0)


@st.composite
def routed(draw):
    d = draw(sim.scenarios(hi=9, npmax=4, max_steps=15))
    b = draw(gen.blob(d["L"] * d["W"]))
    d["mask"] = [[int(b[i * d["W"] + j] % 2) for j in range(d["W"])] for i in range(d["L"])]
    return d


def check_routed(case, ctx):
    import dorado.particle_track as pt
    P, w = sim.simulate(case)
    got = pt.exposure_time(w, np.array(case["mask"]))
    want = expected(w, case["mask"])
    for p, (a, b) in enumerate(zip(got, want)):
        ensure(close(a, b, w["travel_times"][p][-1]), "particle %d: exposure %r, expected %r", p, a, b)
    ctx.nontrivial(any(want))


@st.composite
def grown_cases(draw):
    d = draw(cases())
    d["grow"] = list(draw(gen.blob(len(d["walk"]["xinds"]) + 2)))
    return d


def check_grown(case, ctx):
    import dorado.particle_track as pt
    m = gen.arr(case["mask"], case["dtype"], len(case["grow"]))
    walk = gen.grown(case["walk"], case["grow"], lambda w: pt.exposure_time(w, m))
    if case["grow"][0] % 3 == 0:      # the region changes too
        m[...] = 1 - m
        pt.exposure_time(walk, m)
        m[...] = 1 - m
    check(dict(case, walk=walk, same=m), ctx)


SUBS = [
    Sub("reference", cases, check, 6000, 100000, "hand-made ragged walks (jumps, zero-time steps, start times, extra "
        "fields) and masks of several types; values, report, complement, growth, order; non-trivial if a particle "
        "crosses the border of the region"),
    Sub("routed", routed, check_routed, 1000, 15000, "walks produced by routing; non-trivial if some exposure"),
]
SUBS.append(Sub("grown", grown_cases, check_grown, 1000, 15000, "the same walk data objects after they have been analysed with "
                "shorter histories and in the opposite direction and then changed in place"))


@st.composite
def bulk_cases(draw):
    c = draw(gen.bulk_walks())
    c["cover"] = draw(st.sampled_from([0.5, 0.05, 0.9, 1.0]))
    return c


def check_bulk(case, ctx):
    rs = np.random.RandomState(case["bulk"] // 2)
    shape = (case["L"], case["W"])
    d = dict(gen.expand_walk(case), mask=(rs.rand(*shape) < case["cover"]).astype(int).tolist(),
             more=(rs.rand(*shape) < 0.2).astype(int).tolist(), dtype="int64", verbose=None,
             order=[int(k) for k in rs.permutation(case["n"])])
    check(d, ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 64, 1200, "large generated walk data (up to 3000 particles, histories of up to 2500 entries, rasters of up to 290x270 and 8x300), described by sizes and a seed; non-trivial as above"))
