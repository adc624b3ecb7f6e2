"""C20 nourishment area is the normalised visit count."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure

ASSUMPTIONS = ["Cases in which the truncation percentile of the raster is 0 (fewer visited cells than the percentile "
               "leaves out) are skipped: the statement then divides 0 by 0."]


@st.composite
def cases(draw):
    d = draw(gen.walks(max_p=10, max_len=20, lo=draw(st.sampled_from([3, 2, 1, 3])), hi=draw(st.sampled_from([9, 9, 30, 9]))))
    d["sigma"] = draw(st.sampled_from([0, 0.7, 0.0, 1.5, 0.3, 3.0, 0.2, 0.1, 1]))
    d["clip"] = draw(st.sampled_from([99.5, 100, 90, 75, 50, 40, 25, 97, 99.9]))
    d["order"] = draw(st.permutations(list(range(len(d["walk"]["xinds"])))))
    d["defaults"] = draw(st.integers(0, 5)) == 5
    return d


@st.composite
def heavy_cases(draw):
    """Cells visited hundreds or thousands of times."""
    d = draw(cases())
    i, j = draw(st.sampled_from([[0, 1], [1, 0], [2, 1], [1, 1]]))
    i, j = min(i, d["L"] - 1), min(j, d["W"] - 1)
    d["loop"] = [[i, j], [i + draw(st.integers(-1, 1)), j + 1]]
    d["loop"][1][0] = max(0, min(d["L"] - 1, d["loop"][1][0]))
    d["loop"][1][1] = min(d["W"] - 1, d["loop"][1][1])
    d["loops"] = draw(st.sampled_from([140, 300, 130, 700, 33000]))
    d["dts"] = draw(st.sampled_from([[1.0, 1.0], [2.0, 0.5], [0.25, 8.0]]))
    return d


def expand(case):
    """The case with a first particle that goes to and fro between two cells."""
    w = {f: [list(x) for x in case["walk"][f]] for f in case["walk"]}
    n = case["loops"]
    w["xinds"].insert(0, [case["loop"][k % 2][0] for k in range(2 * n)])
    w["yinds"].insert(0, [case["loop"][k % 2][1] for k in range(2 * n)])
    t = [0.0]
    for k in range(2 * n - 1):
        t.append(t[-1] + case["dts"][k % 2])
    w["travel_times"].insert(0, t)
    for f in w:
        if f not in ("xinds", "yinds", "travel_times"):
            w[f].insert(0, [1] * (2 * n))
    return dict(case, walk=w, order=[len(case["order"])] + list(case["order"]))


def percentile(vals, q):
    v = sorted(float(x) for x in vals)
    pos = (len(v) - 1) * q / 100.0
    k = int(pos)
    f = pos - k
    return v[k] if k + 1 >= len(v) else v[k] + (v[k + 1] - v[k]) * f


def counts(walk, L, W):
    n = np.zeros((L, W))
    for p in range(len(walk["xinds"])):
        for x, y in ref.path(walk, p):
            n[x, y] += 1
    return n


def smooth(a, sigma):
    """Gaussian filter (reflecting borders, 4 sigma) written out."""
    r = int(4.0 * float(sigma) + 0.5)
    k = np.exp(-0.5 * (np.arange(-r, r + 1) / float(sigma)) ** 2)
    k /= k.sum()

    def one(v):
        n = len(v)
        out = []
        for i in range(n):
            s = 0.0
            for o in range(-r, r + 1):
                q = i + o
                q %= 2 * n
                q = q if q < n else 2 * n - 1 - q
                s += k[o + r] * v[q]
            out.append(s)
        return out
    a = np.array([one(c) for c in a.T]).T
    return np.array([one(c) for c in a])


def judge_smoothed(got, want, scale, what):
    """want before the smallest values are removed; got after; values times scale."""
    lo, hi = want.min(), want.max()
    near = want - lo <= 1e-12 * hi
    nan = np.isnan(got)
    ensure(nan.any(), "%s: no cell is NaN", what)
    ensure(not (nan & ~near).any(), "%s: NaN where the smoothed value is %r, the smallest is %r", what,
           want[nan & ~near].tolist(), lo)
    bad = ~nan & (np.abs(np.nan_to_num(got) - want * scale) > 1e-9 * hi * scale)
    ensure(not bad.any(), "%s: %r, expected %r", what, got[bad].tolist(), (want * scale)[bad].tolist())


def check(case, ctx):
    import dorado.particle_track as pt
    walk, L, W = case["walk"], case["L"], case["W"]
    sigma, clip = case["sigma"], case["clip"]
    kw = dict(sigma=sigma, clip=clip)
    if case["defaults"]:
        kw = {}
        sigma, clip = 0.7, 99.5
    n = counts(walk, L, W)
    vmax = percentile(n.ravel(), clip)
    if vmax <= 0:
        ctx.label("percentile 0 (skipped)")
        return
    got = pt.nourishment_area(walk, case.get("same", (L, W)), **kw)
    what = "%dx%d, sigma %r, clip %r" % (L, W, sigma, clip)
    ensure(got.shape == (L, W), "%s: shape %r", what, got.shape)
    n = np.minimum(n, vmax)
    if sigma == 0:
        want = np.where(n > 0, n / n.max(), np.nan)
        ok = (np.isnan(got) == np.isnan(want)) & ((np.abs(got - want) < 1e-9) | np.isnan(want))
        ensure(ok.all(), "%s: cells %r: %r, expected %r", what, np.argwhere(~ok).tolist(), got[~ok].tolist(),
               want[~ok].tolist())
        ctx.label("plain")
    else:
        s = smooth(n, sigma)
        if s.max() - s.min() <= 1e-9 * s.max():
            ctx.label("uniform after smoothing (skipped)")
            return
        judge_smoothed(got, s, 1.0 / s.max(), what)
        ctx.label("smoothed")
    v = got[~np.isnan(got)]
    ensure(len(v) and v.min() >= -1e-12 and abs(v.max() - 1) < 1e-9, "%s: values between %r and %r", what, v.min(), v.max())
    if clip < 100:
        ctx.label("truncated" if vmax < counts(walk, L, W).max() else "nothing truncated")
    # order of particles, travel times and extra fields do not matter
    w2 = {f: [walk[f][p] for p in case["order"]] for f in walk}
    w2["travel_times"] = [[7.0 * k * k for k in range(len(x))] for x in w2["xinds"]]
    again = pt.nourishment_area(w2, (L, W), **kw)
    ensure(np.array_equal(again, got, equal_nan=True), "%s: depends on particle order or times", what)
    ctx.nontrivial(int((n > 0).sum()) > 1)


def check_heavy(case, ctx):
    check(expand(case), ctx)


@st.composite
def grown_cases(draw):
    d = draw(cases())
    d["grow"] = list(draw(gen.blob(len(d["walk"]["xinds"]) + 2)))
    return d


def check_grown(case, ctx):
    import dorado.particle_track as pt
    kw = {} if case["defaults"] else dict(sigma=case["sigma"], clip=case["clip"])

    def call(w):
        with np.errstate(all="ignore"):
            pt.nourishment_area(w, size, **kw)
    size = (case["L"], case["W"])
    check(dict(case, walk=gen.grown(case["walk"], case["grow"], call), same=size), ctx)


SUBS = [Sub("reference", cases, check, 5000, 80000,
            "hand-made walks on 3x3 to 9x9 rasters, five smoothing widths, six truncation percentiles, defaults, against "
            "a written-out reference; order and time laws; non-trivial if two cells were visited")]
SUBS.append(Sub("heavy", heavy_cases, check_heavy, 160, 2500, "the same with one more particle that goes to and fro between two cells 130 to "
                "33000 times"))
SUBS.append(Sub("grown", grown_cases, check_grown, 800, 12000, "the same walk data objects after they have been analysed with "
                "shorter histories and in the opposite direction and then changed in place"))


@st.composite
def bulk_cases(draw):
    c = draw(gen.bulk_walks())
    c["sigma"] = draw(st.sampled_from([0, 0.7, 1.5, 3.0]))
    c["clip"] = draw(st.sampled_from([100, 99.5, 90]))
    c["defaults"] = draw(st.integers(0, 4)) == 4
    return c


def check_bulk(case, ctx):
    order = [int(k) for k in np.random.RandomState(case["bulk"] // 2).permutation(case["n"])]
    check(dict(gen.expand_walk(case), order=order, scale=2.0), ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 64, 1200, "large generated walk data (up to 3000 particles, histories of up to 2500 entries, rasters of up to 290x270 and 8x300), described by sizes and a seed; non-trivial as above"))
