"""C27 exposure-time percentile maps are ordered, in range and robustly smoothed."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, ensure

TECHNIQUE = "property-based testing (Hypothesis): closed-form kernel-density quantiles and a reference filter"
NAN = float("nan")
LEVELS = (0.5, 0.75, 0.9)


@st.composite
def maps(draw):
    k = draw(st.sampled_from([1, 2, 4, 10, 3]))
    R, C = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    c = dict(res=k, L=R * k + draw(st.integers(0, k - 1)), W=C * k + draw(st.integers(0, k - 1)), R=R, C=C)
    data = []
    for _ in range(R * C):
        kind = draw(st.sampled_from(["many", "many", "zeros", "nan", "few", "empty", "repeats", "skew"]))
        n = draw(st.integers(5, 25))
        b = draw(gen.blob(n))
        s = draw(st.sampled_from([1.0, 10.0, 86400.0, 0.01, 2.0 ** -20, 1e-6, 1e8]))
        if kind == "nan":
            data.append(NAN)
            continue
        v = [(0.5 + x % 64 + i / 32.0) * s for i, x in enumerate(b)]
        if kind == "zeros":
            v = [0.0 if x % 3 == 0 else y for x, y in zip(b, v)]
        elif kind == "few":
            v = [[3.5, 0.0, 1.0, 7.25, 2.0][x % 5] * s for x in b]
        elif kind == "empty":
            v = [] if b[0] % 2 else [0.0] * (b[1] % 4)
        elif kind == "repeats":
            v = [float(1 + x % 6) * s for x in b]
        elif kind == "skew":
            v = [(1.0 + (x % 16) ** 3 + i / 64.0) * s for i, x in enumerate(b)]
        data.append(v)
    c["data"] = data
    c["unit"] = draw(st.sampled_from([1, 60, 3600.0, 86400, 0.5]))
    c["window"] = draw(st.sampled_from([None, 3, 4, 2, 5, 7, 1]))
    c["thr"] = draw(st.sampled_from([3, 1, 5, 0.5, 2, 1.5]))
    return c


def kde_cdf(data):
    """CDF of the normal-kernel density (Scott's bandwidth), restricted to the range of the data."""
    n = len(data)
    m = math.fsum(data) / n
    h = math.sqrt(math.fsum((x - m) ** 2 for x in data) / (n - 1)) * n ** (-0.2)
    raw = lambda t: math.fsum(0.5 * math.erf((t - x) / h / math.sqrt(2)) for x in data)
    a, b = raw(min(data)), raw(max(data))
    return lambda t: (raw(t) - a) / (b - a)


def close(a, b):
    return (a != a and b != b) or abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-12


def filt(data, window, thr):
    """Admissible values of each cell after smoothing."""
    R, C = data.shape
    h = window // 2
    out = []
    for i in range(R):
        row = []
        for j in range(C):
            if math.isnan(data[i, j]):
                row.append([NAN])
                continue
            w = [data[a, b] for a in range(max(0, i - h), min(R, i + h + 1))
                 for b in range(max(0, j - h), min(C, j + h + 1)) if not math.isnan(data[a, b])]
            med = float(np.median(w))
            dev = [abs(x - med) for x in w]
            mad = float(np.median(dev))
            if mad == 0:
                row.append([med])
                continue
            row.append([])
            for f in (1.0, 1 - 1e-9, 1 + 1e-9):
                kept = [x for x, d in zip(w, dev) if d <= thr * mad * f]
                # with a threshold below one it can be that nothing is left
                row[-1].append(math.fsum(kept) / len(kept) if kept else NAN)
        out.append(row)
    return out


def judge_filter(got, data, window, thr, what):
    got = np.asarray(got)
    ensure(got.shape == data.shape, "%s: shape %r, expected %r", what, got.shape, data.shape)
    want = filt(data, window, thr)
    for i in range(data.shape[0]):
        for j in range(data.shape[1]):
            ensure(any(close(float(got[i, j]), w) for w in want[i][j]), "%s: block (%d, %d) is %r, expected %r (window "
                   "%d, threshold %r, values %r)", what, i, j, float(got[i, j]), want[i][j], window, thr, data.tolist())


def check_maps(case, ctx):
    import dorado.spatial as sp
    el = np.zeros((case["L"], case["W"]))
    fresh = lambda: [list(x) if isinstance(x, list) else float("nan") for x in case["data"]]
    data, R, C, u = fresh(), case["R"], case["C"], case["unit"]
    if len(data) % 2:      # the same lists with other contents before
        data = [[t + 1.0 for t in x[::-1]] if isinstance(x, list) else x for x in data]
        sp.compute_thresholds(data, el, u, case["res"], window_size=1, threshold=case["thr"])
        data = gen.pour(data, fresh())
    raw = sp.compute_thresholds(data, el, u, case["res"], window_size=1, threshold=case["thr"])
    ensure(len(raw) == 3, "%d maps", len(raw))
    full = 0
    for m in raw:
        ensure(np.shape(m) == (R, C), "map of shape %r for %d x %d blocks", np.shape(m), R, C)
    for i in range(R):
        for j in range(C):
            item = case["data"][i * C + j]
            e = [float(m[i, j]) for m in raw]
            nz = [x for x in item if x != 0 and x == x] if isinstance(item, list) else []
            if len(set(nz)) < 5:
                ensure(all(x != x for x in e), "block (%d, %d) with times %r has percentiles %r", i, j, item, e)
                continue
            full += 1
            lo, hi = min(nz), max(nz)
            ensure(all(x == x for x in e), "block (%d, %d) with times %r has percentiles %r", i, j, item, e)
            t = [x * u for x in e]
            eps = 1e-9 * hi
            ensure(lo - eps <= t[0] <= t[1] <= t[2] <= hi + eps, "block (%d, %d): percentiles %r (unit %r) of times "
                   "%r..%r", i, j, e, u, lo, hi)
            F = kde_cdf(nz)
            r = 0.008 * (hi - lo)
            for lev, x in zip(LEVELS, t):
                ensure(F(x - r) <= lev <= F(x + r) or abs(F(x) - lev) < 0.004, "block (%d, %d): E%d is %r s, where the "
                       "smoothed distribution is at %.4f (times %r)", i, j, round(lev * 100), x, F(x), item)
    kw = {} if case["window"] is None else dict(window_size=case["window"], threshold=case["thr"])
    sm = sp.compute_thresholds(data, el, u, case["res"], **kw)
    for k in range(3):
        judge_filter(sm[k], np.array(raw[k]), kw.get("window_size", 5), kw.get("threshold", 3), "E%d" % (
            round(LEVELS[k] * 100)))
    ensure(str(data) == str(fresh()), "the exposure times were modified")
    ctx.label("blocks with percentiles", full)
    ctx.label("blocks without", R * C - full)
    ctx.nontrivial(full > 0 and R * C > 1)


@st.composite
def rasters(draw):
    R, C = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    vals = [1.0, 2.0, 1.5, 8.0, NAN, 1.0, 1.25, 64.0, 0.0, 1.0, -3.0, 1.75, NAN, 2.5, 1.0, 3.0]
    if draw(st.booleans()):
        vals = [v for v in vals if v == v]
    return dict(data=gen.grid(draw(gen.blob(R * C)), vals, R, C),
                window=draw(st.sampled_from([1, 3, 4, 2, 6, 5, 7, 9])), thr=draw(st.sampled_from([3, 1, 2, 1.5, 0.5, 10])))


def check_filter(case, ctx):
    import dorado.spatial as sp
    data = gen.arr(case["data"], layout=case["window"])
    keep = data.copy()
    if data.shape[0] % 2:      # the same array with other contents before
        data[...] = 2 * data[::-1] + 1
        sp.median_absolute_deviation_filter(data, case["window"], case["thr"])
        data[...] = keep
    got = sp.median_absolute_deviation_filter(data, case["window"], case["thr"])
    ensure(np.array_equal(data, keep, equal_nan=True), "the map was changed in place")
    judge_filter(got, keep, case["window"], case["thr"], "filter")
    if case["window"] == 1:
        ensure(np.array_equal(got, keep, equal_nan=True), "a window of one changes the map")
    ctx.nontrivial(case["window"] > 1 and len(set(v for r in case["data"] for v in r if v == v)) > 2)
    if np.isnan(keep).any():
        ctx.label("with NaN")


SUBS = [
    Sub("maps", maps, check_maps, 1200, 20000,
        "1-16 blocks with many, few, zero, repeated, skewed, missing or no exposure times, time units, windows 1-7; "
        "percentiles judged against the closed-form distribution function within 0.8 % of the range or 0.4 % "
        "probability; non-trivial if several blocks and one with percentiles"),
    Sub("filter", rasters, check_filter, 3200, 60000,
        "maps of 1-8 x 1-8 dyadic values with outliers and NaN, windows 1-9, thresholds 1-10; non-trivial if the window "
        "exceeds one and there are more than two values"),
]


@st.composite
def bulk_cases(draw):
    k = draw(st.integers(1, 3))
    R, C = draw(st.sampled_from([[6, 9], [12, 4], [7, 7]]))
    return dict(bulk=draw(gen.rng_seed), res=k, L=R * k + draw(st.integers(0, k - 1)), W=C * k + draw(st.integers(0, k - 1)), R=R, C=C,
                n=draw(st.sampled_from([30, 120, 60])), unit=draw(st.sampled_from([3600.0, 1])), window=draw(st.sampled_from([None, 5, 3])),
                thr=draw(st.sampled_from([3, 2])))


def check_bulk(case, ctx):
    rs = np.random.RandomState(case["bulk"])
    data = []
    for _ in range(case["R"] * case["C"]):
        k = rs.randint(8)
        m = case["n"] + rs.randint(5)
        data.append(NAN if k == 0 else [0.0] * 3 if k == 1 else
                    [float(v) for v in rs.gamma(2.0, 1000.0, m) * (rs.rand(m) < (0.7 if k < 4 else 1.1))])
    check_maps(dict(case, data=data), ctx)


@st.composite
def bulk_filters(draw):
    return dict(bulk=draw(gen.rng_seed), R=draw(st.sampled_from([30, 45, 12])), C=draw(st.sampled_from([25, 40, 60])),
                nan=draw(st.sampled_from([0.0, 0.1, 0.5])), window=draw(st.sampled_from([5, 3, 4, 11])), thr=draw(st.sampled_from([3, 1.5])))


def check_bulk_filter(case, ctx):
    rs = np.random.RandomState(case["bulk"])
    a = rs.choice([1.0, 2.0, 1.5, 8.0, 1.25, 64.0, 0.0, 3.0], (case["R"], case["C"]))
    a[rs.rand(*a.shape) < case["nan"]] = NAN
    check_filter(dict(data=a.tolist(), window=case["window"], thr=case["thr"]), ctx)


SUBS += [Sub("bulk maps", bulk_cases, check_bulk, 24, 400, "48 to 54 blocks with up to 120 times each"),
         Sub("bulk filter", bulk_filters, check_bulk_filter, 24, 400, "maps of up to 45x60, windows up to 11")]
