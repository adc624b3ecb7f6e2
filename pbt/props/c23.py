"""C23 gridding unstructured data interpolates the nearest points onto the right raster."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, ensure, refused

TECHNIQUE = "property-based testing (Hypothesis): differential against a brute-force nearest-neighbour reference"
VALS = [1.0, 0.0, -2.5, 3.0, 10.0, 0.125, 7.75, -1.0]


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(3, 25)))
    cs = draw(st.sampled_from([1.0, 0.5, 2.0, 0.25, 4.0]))
    ox, oy = draw(st.sampled_from([[0.0, 0.0], [-8.0, 3.5], [500000.0, 4000000.0], [-90.25, 29.5]]))
    kind = draw(st.sampled_from(["lattice", "quarter", "fine", "line"]))
    b = draw(gen.blob(4 * n))
    span = draw(st.sampled_from([4, 7, 10])) * cs
    pts = []
    for k in range(n):
        u, v, u2, v2 = b[4 * k:4 * k + 4]
        if kind == "lattice":
            px, py = (u % int(span / cs + 1)) * cs, (v % int(span / cs + 1)) * cs
        elif kind == "quarter":
            m = int(4 * span / cs)
            px, py = (u % (m + 1)) * cs / 4, (v % (m // 2 + 1)) * cs / 4
        else:
            px, py = (u * 256 + u2) * span / 65536.0, (v * 256 + v2) * span / 65536.0
            if kind == "line":
                py = 0.0
        pts.append([ox + px, oy + py])
    q = gen.pal(draw(gen.blob(n)), VALS, n)
    if draw(st.booleans()):
        q = [x + k / 64.0 for k, x in enumerate(q)]
    q2 = gen.pal(draw(gen.blob(n)), VALS[::-1], n)
    k = draw(st.sampled_from([1, 3, 2, 4, 1, n, 5]))
    c = dict(pts=pts, cs=cs, k=max(1, min(k, n)), q=q, q2=q2, boundary=None,
             shape=draw(st.sampled_from(["tuples", "lists", "array"])),
             short=draw(st.sampled_from([0] * 8 + [1, -1])))
    if c["k"] == 1 and draw(st.integers(0, 5)) == 5:
        m = draw(gen.blob(n))
        c["q"] = [float("nan") if x % 4 == 0 else v for x, v in zip(m, q)]
    if draw(st.booleans()):
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        w, h = max(max(xs) - min(xs), cs), max(max(ys) - min(ys), cs)
        cx = min(xs) + w * draw(st.sampled_from([0.5, 0.375, 0.75])) + cs / 37
        cy = min(ys) + h * draw(st.sampled_from([0.5, 0.375, 0.75])) + cs / 41
        m = draw(st.integers(3, 7))
        rad = draw(gen.blob(m))
        rot = draw(st.integers(0, 63)) / 10.0 + 0.0137
        c["boundary"] = [[cx + (0.15 + r / 256.0) * 0.8 * w * math.cos(rot + 2 * math.pi * t / m),
                          cy + (0.15 + r / 256.0) * 0.8 * h * math.sin(rot + 2 * math.pi * t / m)]
                         for t, r in enumerate(rad)]
        if draw(st.booleans()):
            c["boundary"].append(list(c["boundary"][0]))
        if draw(st.integers(0, 15)) == 15:        # nowhere near the points
            c["boundary"] = [[x + 3 * w, y] for x, y in c["boundary"]]
    s, m = draw(st.sampled_from([[1, 1], [1, 1], [2.0 ** -20, 1], [2.0 ** 31, 1], [1, 2.0 ** -40], [1, 2.0 ** 40]]))
    if (s, m) != (1, 1):        # millimetres, degrees; tiny and huge quantities
        c.update(pts=[[x * s, y * s] for x, y in pts], cs=cs * s, q=[v * m for v in c["q"]], q2=[v * m for v in q2])
        if c["boundary"]:
            c["boundary"] = [[x * s, y * s] for x, y in c["boundary"]]
    return c


@st.composite
def many(draw):
    """Enough points for the search structure to matter."""
    n = draw(st.integers(40, 250))
    b = draw(gen.blob(5 * n))
    kind = draw(st.sampled_from(["fine", "clusters", "fine"]))
    span = draw(st.sampled_from([6.0, 9.0, 4.0]))
    ox, oy = draw(st.sampled_from([[0.0, 0.0], [500000.0, 4000000.0]]))
    pts = []
    for t in range(n):
        u, v, u2, v2, c = b[5 * t:5 * t + 5]
        px, py = (u * 256 + u2) * span / 65536.0, (v * 256 + v2) * span / 65536.0
        if kind == "clusters":
            px, py = px / 8 + (c % 3) * span / 2.5, py / 8 + (c // 3 % 3) * span / 2.5
        pts.append([ox + px, oy + py])
    return dict(pts=pts, cs=draw(st.sampled_from([1.0, 0.5])), k=draw(st.sampled_from([3, 1, 2, 5, 10, 20])),
                q=[x + t / 64.0 for t, x in enumerate(gen.pal(b, VALS, n))], q2=gen.pal(b[n:], VALS[::-1], n), boundary=None,
                shape=draw(st.sampled_from(["tuples", "lists", "array"])), short=0)


@st.composite
def gaps(draw):
    """Rows or columns without data between others with data: boundaries with narrow necks, or missing data."""
    h, w = draw(st.integers(4, 9)), draw(st.integers(3, 8))
    cs = draw(st.sampled_from([1.0, 0.5, 4.0]))
    kind = draw(st.sampled_from(["neck", "missing", "both"]))
    k = 1 if kind != "neck" else draw(st.sampled_from([1, 3, 2]))
    b = draw(gen.blob(2 * h * w))
    pts, q = [], []
    gone = draw(st.sets(st.integers(1, h - 2), min_size=0 if kind == "neck" else 1, max_size=3))
    gonec = draw(st.sets(st.integers(1, w - 2), max_size=1)) if kind != "neck" else set()
    for i in range(h):
        for j in range(w):
            if kind == "neck" and b[h * w + i * w + j] % 4 == 3 and 0 < i < h - 1:
                continue
            pts.append([j * cs, i * cs])
            nan = kind != "neck" and (i in gone or j in gonec or b[h * w + i * w + j] % 8 == 7)
            q.append(float("nan") if nan else VALS[b[i * w + j] % len(VALS)] + (i * w + j) / 64.0)
    H, W = (h - 1) * cs, (w - 1) * cs
    if kind == "missing":
        m = draw(st.sampled_from([0.37, -0.37, -0.63])) * cs
        bnd = [[-m - 0.01, -m], [W + m + 0.01, -m], [W + m, H + m], [-m, H + m]]
    else:
        x = (draw(st.integers(0, w - 2)) + 0.4137) * cs
        y1 = (draw(st.integers(0, h - 3)) + 0.63) * cs
        y2 = y1 + draw(st.integers(1, 3)) * cs + 0.11 * cs
        e = 0.05 * cs
        lo, hi = -0.37 * cs, draw(st.sampled_from([H + 0.37 * cs, H - 0.63 * cs]))
        if y2 > H:
            y2 = H - 0.41 * cs
        bnd = [[-0.4 * cs, lo], [W + 0.4 * cs, lo], [x + e, y1], [x + e, y2], [W + 0.41 * cs, hi], [-0.41 * cs, hi],
               [x - e, y2], [x - e, y1]]
    if draw(st.booleans()):
        pts, bnd = [p[::-1] for p in pts], [p[::-1] for p in bnd]
    q2 = [v if v == v and draw(st.booleans()) else float("nan") if v != v else v + 1.0 for v in q]
    n = len(pts)
    ox, oy = draw(st.sampled_from([[0.0, 0.0], [4096.0, -512.0]]))
    return dict(pts=[[x + ox, y + oy] for x, y in pts], cs=cs, k=min(k, n), q=q, q2=q2,
                boundary=[[x + ox, y + oy] for x, y in bnd], shape=draw(st.sampled_from(["tuples", "lists", "array"])), short=0)


def inside(poly, x, y, cs):
    """True, False, or None very close to the edge."""
    tol = 1e-7 * max(cs, abs(x), abs(y))
    odd = False
    n = len(poly)
    for k in range(n):
        (x1, y1), (x2, y2) = poly[k], poly[(k + 1) % n]
        l2 = (x2 - x1) ** 2 + (y2 - y1) ** 2
        t = 0.0 if l2 == 0 else max(0.0, min(1.0, ((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / l2))
        if math.hypot(x - x1 - t * (x2 - x1), y - y1 - t * (y2 - y1)) < tol:
            return None
        if (y1 > y) != (y2 > y) and x < x1 + (y - y1) * (x2 - x1) / (y2 - y1):
            odd = not odd
    return odd


def candidates(pts, q, k, x, y):
    """(lowest, highest) admissible value and, for one neighbour, the admissible values."""
    d2 = [(p[0] - x) ** 2 + (p[1] - y) ** 2 for p in pts]
    order = sorted(range(len(pts)), key=lambda i: d2[i])
    dk = d2[order[k - 1]]
    sure = [i for i in order if d2[i] < dk * (1 - 1e-12)]
    tie = [i for i in order if dk * (1 - 1e-12) <= d2[i] <= dk * (1 + 1e-12)]
    if k == 1:
        return [q[i] for i in tie], None, None
    w = lambda i: 1.0 / (math.sqrt(d2[i]) + 1e-100)
    m = k - len(sure)
    num = sum(w(i) * q[i] for i in sure)
    den = sum(w(i) for i in sure) + m * w(tie[0])
    tv = sorted(q[i] for i in tie)
    lo = (num + w(tie[0]) * sum(tv[:m])) / den
    hi = (num + w(tie[0]) * sum(tv[len(tv) - m:])) / den
    return None, lo, hi


def crop(g):
    m = ~np.isnan(g)
    if not m.any():
        return None
    r, c = np.flatnonzero(m.any(1)), np.flatnonzero(m.any(0))
    return g[r[0]:r[-1] + 1, c[0]:c[-1] + 1]


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def check(case, ctx):
    import dorado.particle_track as pt
    pts, q, k, cs = case["pts"], case["q"], case["k"], case["cs"]
    n = len(pts)
    co = dict(tuples=[tuple(p) for p in pts], lists=[list(p) for p in pts], array=gen.arr(pts, layout=n))[case["shape"]]
    if case["short"]:
        qq = q + [1.0] if case["short"] > 0 else q[:-1]
        refused(lambda: pt.unstruct2grid(co, qq, cs, k), (ValueError,), "%d values for %d points" % (len(qq), n))
        ctx.label("length mismatch")
        return
    bnd = case["boundary"]
    if bnd is not None and n % 4 == 1:
        bnd = np.array(bnd)
    form = dict(tuples=tuple, lists=list, array=np.array)[case["shape"]]
    f, g = pt.unstruct2grid(co, form(q), cs, k, boundary=bnd, crop=False)
    if k == 3:      # the default
        ensure(equal(pt.unstruct2grid(co, form(q), cs, boundary=bnd, crop=False)[1], g), "without a number of neighbours "
               "the result differs from that for three")
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    x0, y0 = min(xs), min(ys)
    nx, ny = math.ceil((max(xs) - x0) / cs) + 1, math.ceil((max(ys) - y0) / cs) + 1
    ensure(g.shape == (ny, nx), "raster of shape %r for an extent of %r x %r and cells of %r (expected %r)", g.shape,
           max(ys) - y0, max(xs) - x0, cs, (ny, nx))
    scale = max([abs(v) for v in q if v == v] + [1e-30])
    good = [v for v in q if v == v]
    nin = nout = hit = 0
    for i in range(ny):
        for j in range(nx):
            x, y = x0 + j * cs, y0 + (ny - 1 - i) * cs
            v = float(g[i, j])
            if bnd is not None:
                ins = inside(bnd, x, y, cs)
                if ins is None:
                    ctx.label("on the boundary")
                    continue
                if not ins:
                    nout += 1
                    ensure(v != v, "cell (%d, %d) at (%r, %r) is outside the boundary and holds %r", i, j, x, y, v)
                    continue
            nin += 1
            one, lo, hi = candidates(pts, q, k, x, y)
            if one is not None:
                ensure(any(v == o or (v != v and o != o) for o in one), "cell (%d, %d) at (%r, %r) holds %r, nearest "
                       "point has %r", i, j, x, y, v, one)
            else:
                tol = 1e-9 * scale
                ensure(lo - tol <= v <= hi + tol, "cell (%d, %d) at (%r, %r) holds %r, the weighted mean of the %d "
                       "nearest points is %r..%r", i, j, x, y, v, k, lo, hi)
                ensure(min(good) - tol <= v <= max(good) + tol, "cell (%d, %d): %r is out of range", i, j, v)
            at = {q[t] for t in range(n) if pts[t] == [x, y]}
            if len(at) == 1 and k == 1 or len(at) == 1 and sum(p == [x, y] for p in pts) == 1:
                hit += 1
                a = at.pop()
                ensure(a != a and v != v or abs(a - v) <= 1e-9 * scale, "cell (%d, %d) sits on a point with value %r "
                       "and holds %r", i, j, a, v)
    # the returned function, on the same and on other data
    ensure(equal(f(list(q)), g) and equal(f(np.array(q)), g), "the returned function gives another raster for the "
           "same data")
    f2, g2 = pt.unstruct2grid(co, case["q2"], cs, k, boundary=bnd, crop=False)
    for data in (list(case["q2"]), np.array(case["q2"])):
        keep = list(data)
        ensure(equal(f(data), g2), "the returned function and a fresh call differ for other data")
        ensure(equal(data, keep), "the data were changed")
    ensure(equal(f(np.array(q)), g), "the returned function gives another raster after other data")
    # cropping (also the default)
    for kw in (dict(crop=True), dict()):
        fc, gc = pt.unstruct2grid(co, q, cs, k, boundary=bnd, **kw)
        if bnd is None:
            ensure(equal(gc, g), "without a boundary the raster was cropped")
            continue
        want = crop(g)
        if want is None:
            ctx.label("nothing inside")
            continue
        ensure(equal(gc, want), "cropped raster %r, expected %r", np.asarray(gc).tolist(), want.tolist())
        want2 = crop(g2)
        if want2 is not None:
            ensure(equal(fc(case["q2"]), want2), "the returned function crops other data differently")
        if want.shape != g.shape:
            ctx.label("cropped")
        if np.isnan(want).all(0).any() or np.isnan(want).all(1).any():
            ctx.label("empty rows or columns inside")
    ctx.label("k=1" if k == 1 else "k>1")
    ctx.label("boundary" if bnd is not None else "no boundary")
    if hit:
        ctx.label("cells on points", hit)
    ctx.nontrivial(n > 1 and nx * ny > 4 and nin > 0 and len(set(q)) > 1 and (bnd is None or nout > 0))


@st.composite
def second(draw):
    d = draw(cases())
    d["short"] = 0
    n = len(d["pts"])
    d["order"] = draw(st.permutations(list(range(n))))
    d["keep_ends"] = draw(st.booleans())
    return d


def check_second(case, ctx):
    """Another call before, with points of the same number, columns and rows, paired in another way."""
    import dorado.particle_track as pt
    o = list(case["order"])
    n = len(o)
    if case["keep_ends"] and n > 2:
        o = [0] + [x for x in o if 0 < x < n - 1] + [n - 1]
    pts = [[case["pts"][k][0], case["pts"][o[k]][1]] for k in range(n)]
    pt.unstruct2grid(pts, case["q"], case["cs"], case["k"], boundary=case["boundary"])
    check(case, ctx)



SUBS = [Sub("grid", cases, check, 1600, 30000,
            "1-25 points (lattice, quarter cells, fine, all in one line; offsets up to UTM size), cells of 0.25-4, 1-25 "
            "neighbours, with or without a star-shaped boundary, every cell judged against brute force; non-trivial if "
            "several values, more than 4 cells and (with a boundary) cells on both sides")]
SUBS.append(Sub("many", many, check, 120, 2000, "40-250 points, spread or in clusters, 1-20 neighbours, no boundary"))
SUBS.append(Sub("gaps", gaps, check, 400, 8000, "lattices of points with boundaries that have narrow necks, or with missing data, so that "
                "rows or columns without data lie between others; non-trivial as above"))
SUBS.append(Sub("second", second, check_second, 400, 8000, "a call after one with points of the same number, columns and rows in "
                "another pairing"))


@st.composite
def wide(draw):
    d = draw(second())
    d["cs"] = d["cs"] / draw(st.sampled_from([4, 6, 5]))
    return d


SUBS.append(Sub("wide", wide, check, 48, 800, "as the first one with cells a fourth to a sixth as wide (several thousand cells)"))


@st.composite
def bulk_cases(draw):
    return dict(bulk=draw(gen.rng_seed), n=draw(st.sampled_from([600, 1500, 300, 1100])), k=draw(st.sampled_from([3, 1, 8])),
                cs=draw(st.sampled_from([1.0, 0.5])), span=draw(st.sampled_from([[30.0, 8.0], [12.0, 12.0], [5.0, 40.0]])),
                origin=draw(st.sampled_from([[0.0, 0.0], [500000.0, 4000000.0]])), shape=draw(st.sampled_from(["array", "tuples"])))


def check_bulk(case, ctx):
    rs = np.random.RandomState(case["bulk"])
    pts = rs.rand(case["n"], 2) * case["span"] + case["origin"]
    check(dict(pts=pts.tolist(), cs=case["cs"], k=case["k"], q=rs.rand(case["n"]).tolist(), q2=rs.rand(case["n"]).tolist(),
               boundary=None, shape=case["shape"], short=0), ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 24, 400, "300 to 1500 points, rasters of up to 600 or so cells"))
