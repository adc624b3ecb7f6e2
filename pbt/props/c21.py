"""C21 nourishment time is the mean residence time per visit."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure
from pbt.props.c20 import bulk_cases, heavy_cases, expand, percentile, smooth, judge_smoothed


@st.composite
def cases(draw):
    d = draw(gen.walks(max_p=10, max_len=20, lo=draw(st.sampled_from([3, 2, 1, 3])), hi=draw(st.sampled_from([9, 9, 30, 9]))))
    unit, first = draw(st.sampled_from([1.0, 1.0, 2.0 ** 24, 2.0 ** -14, 1.0])), draw(st.sampled_from([0.0, 0.0, -1024.0, 65536.0, 0.0]))
    w = d["walk"]
    w["travel_times"] = [[unit * (x + first) for x in v] for v in w["travel_times"]]
    d["sigma"] = draw(st.sampled_from([0, 0.7, 0.0, 1.5, 0.3, 3.0, 0.2, 0.1, 1]))
    d["clip"] = draw(st.sampled_from([99.5, 100, 90, 75, 50, 40, 25, 97, 99.9]))
    d["order"] = draw(st.permutations(list(range(len(d["walk"]["xinds"])))))
    d["scale"] = draw(st.sampled_from([2.0, 0.25, 64.0]))
    d["defaults"] = draw(st.integers(0, 5)) == 5
    return d


def means(walk, L, W):
    tot = [[[] for _ in range(W)] for _ in range(L)]
    for p in range(len(walk["xinds"])):
        path, t = ref.path(walk, p), walk["travel_times"][p]
        for k in range(1, len(path) - 1):
            x, y = path[k]
            tot[x][y].append(0.5 * (t[k + 1] - t[k - 1]))
    return np.array([[sum(c) / len(c) if c else 0.0 for c in r] for r in tot])


def check(case, ctx):
    import dorado.particle_track as pt
    walk, L, W = case["walk"], case["L"], case["W"]
    sigma, clip = case["sigma"], case["clip"]
    kw = dict(sigma=sigma, clip=clip)
    if case["defaults"]:
        kw = {}
        sigma, clip = 0.7, 99.5
    m = means(walk, L, W)
    vmax = percentile(m.ravel(), clip)
    got = pt.nourishment_time(walk, case.get("same", (L, W)), **kw)
    what = "%dx%d, sigma %r, clip %r" % (L, W, sigma, clip)
    ensure(got.shape == (L, W), "%s: shape %r", what, got.shape)
    full = m
    m = np.minimum(m, vmax)
    if sigma == 0:
        want = np.where(m > 0, m, np.nan)
        ok = (np.isnan(got) == np.isnan(want)) & ((np.abs(got - want) <= 1e-9 * (1 + np.abs(want))) | np.isnan(want))
        ensure(ok.all(), "%s: cells %r: %r, expected %r", what, np.argwhere(~ok).tolist(), got[~ok].tolist(),
               want[~ok].tolist())
        ctx.label("plain")
    else:
        s = smooth(m, sigma)
        if s.max() - s.min() <= 1e-9 * s.max():
            ctx.label("uniform after smoothing (skipped)")
            return
        judge_smoothed(got, s, 1.0, what)
        ctx.label("smoothed")
    ctx.label("truncated" if vmax < full.max() else "nothing truncated")
    # order of particles; unit of time (powers of two: exact)
    w2 = {f: [walk[f][p] for p in case["order"]] for f in walk}
    again = pt.nourishment_time(w2, (L, W), **kw)
    near = lambda a, b: np.array_equal(np.isnan(a), np.isnan(b)) and bool(
        np.all((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | np.isnan(b)))
    ensure(near(again, got) or sigma > 0 and np.nanmax(np.abs(np.nan_to_num(again) - np.nan_to_num(got)))
           <= 1e-9 * (1 + m.max()), "%s: depends on the order of particles", what)
    w3 = dict(walk, travel_times=[[x * case["scale"] for x in v] for v in walk["travel_times"]])
    scaled = pt.nourishment_time(w3, (L, W), **kw)
    ensure(near(scaled, got * case["scale"]), "%s: times %r-fold give %r, not %r", what, case["scale"], scaled.tolist(),
           (got * case["scale"]).tolist())
    # moving all times of a particle changes nothing
    w4 = dict(walk, travel_times=[[x + 16.0 for x in v] for v in walk["travel_times"]])
    ensure(near(pt.nourishment_time(w4, (L, W), **kw), got), "%s: depends on the starting time", what)
    ctx.nontrivial(int((full > 0).sum()) > 1)


def check_heavy(case, ctx):
    check(expand(dict(case, scale=2.0)), ctx)


@st.composite
def grown_cases(draw):
    d = draw(cases())
    d["grow"] = list(draw(gen.blob(len(d["walk"]["xinds"]) + 2)))
    return d


def check_grown(case, ctx):
    import dorado.particle_track as pt
    kw = {} if case["defaults"] else dict(sigma=case["sigma"], clip=case["clip"])

    def call(w):
        with np.errstate(all="ignore"):
            pt.nourishment_time(w, size, **kw)
    size = (case["L"], case["W"])
    check(dict(case, walk=gen.grown(case["walk"], case["grow"], call), same=size), ctx)


SUBS = [Sub("reference", cases, check, 5000, 80000,
            "hand-made walks (zero-time steps, returns to a cell), five smoothing widths, six percentiles, defaults, "
            "against a written-out reference; order, unit and start-time laws; non-trivial if two cells have a mean "
            "time")]
SUBS.append(Sub("heavy", heavy_cases, check_heavy, 160, 2500, "the same with one more particle that goes to and fro between two cells 130 to "
                "33000 times"))
SUBS.append(Sub("grown", grown_cases, check_grown, 800, 12000, "the same walk data objects after they have been analysed with "
                "shorter histories and in the opposite direction and then changed in place"))


def check_bulk(case, ctx):
    order = [int(k) for k in np.random.RandomState(case["bulk"] // 2).permutation(case["n"])]
    check(dict(gen.expand_walk(case), order=order, scale=2.0), ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 64, 1200, "large generated walk data (up to 3000 particles, histories of up to 2500 entries, rasters of up to 290x270 and 8x300), described by sizes and a seed; non-trivial as above"))
