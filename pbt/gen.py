"""Hypothesis strategies for domains, seeds, walks; builders turning a JSON case into dorado objects."""
import math

import numpy as np
from hypothesis import strategies as st

NAN = float("nan")

# Palettes: mostly dyadic, so that sums cancel exactly and ties are exact.  Index 0 is "simplest".
DEPTH_WET = [1.0, 2.0, 0.5, 4.0, 1.5, 0.25, 3.0, 0.75]
DEPTH_MIX = [1.0, 0.0, 2.0, 0.05, 0.5, 0.1, 1.0, 0.25, 0.0, 3.0, 0.125, 0.0625,
             2.0, 1.5, 0.1, 0.5]
DEPTH_SHALLOW = [0.03125, 0.0, 0.0625, 0.015625, 0.02, 0.005, 0.0078125, 0.25]
DEPTH_WHOLE = [1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 12.0, 2.0]
DEPTH_DEEP = [64.0, 1000.0, 512.0, 4096.0, 100.0, 2.0, 0.5, 250.0]
DEPTH_DRY = [0.0, 1.0, 0.0, 0.05, 0.0, 2.0, 0.1, 0.0]
LEVEL = [0.0, 1.0, 0.5, -1.0, 2.0, 0.25, -0.5, 3.0]
FLUX = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, -0.25, 3.0, -0.125, 0.0625, 1.0, -1.0, 0.0, 5.0]
FLUX_POS = [1.0, 0.5, 2.0, 0.25, 3.0, 1.5, 0.75, 4.0]


def pal(b, palette, n):
    """Map n bytes to palette values."""
    k = len(palette)
    return [palette[x % k] for x in b[:n]]


def grid(b, palette, L, W):
    v = pal(b, palette, L * W)
    return [v[i * W:(i + 1) * W] for i in range(L)]


def blob(n):
    return st.binary(min_size=n, max_size=n)


@st.composite
def shapes(draw, lo=3, hi=10):
    # small sizes are worth a visit, but most of a 3x3 or 4x4 grid is border
    sizes = [k for k in range(max(lo, 5), hi + 1)] * 2 + [k for k in range(lo, hi + 1)]
    L = draw(st.sampled_from(sizes))
    W = draw(st.sampled_from(sizes))
    return L, W


@st.composite
def domains(draw, lo=3, hi=10, nan=True, celltypes=True, spec="simple", dry=True, water="any",
            theta=True, sd=None, diff=None, models=True, roi=False, tracked=False,
            dxs=(1.0, 50.0, 0.5, 7.7, 3, 0.015625, 1024.0, 10.0, 2.5), big=False, int_fields=False):
    """A complete domain description as a JSON dict.

    water: 'any' | 'wet' (no dry cells)
    spec:  'simple' = depth + stage + qx + qy
    """
    L, W = draw(shapes(lo, hi))
    n = L * W
    d = dict(L=L, W=W)
    style = draw(st.sampled_from(["wet", "mix", "shallow", "deep", "patch", "whole", "dry"] if water == "any" else ["wet", "wet", "whole"]))
    pal_d = dict(wet=DEPTH_WET, whole=DEPTH_WHOLE, mix=DEPTH_MIX, dry=DEPTH_DRY, patch=DEPTH_WET, deep=DEPTH_DEEP, shallow=DEPTH_SHALLOW)[style]
    dep = grid(draw(blob(n)), pal_d, L, W)
    if style == "patch":
        m = draw(blob(n))
        for i in range(L):
            for j in range(W):
                if m[i * W + j] % 4 == 3:
                    dep[i][j] = [0.0, 0.05, 0.1][m[i * W + j] // 4 % 3]
    fine = draw(st.booleans())
    if fine and style != "whole":   # break the ties
        m = draw(blob(n))
        for i in range(L):
            for j in range(W):
                if dep[i][j] > 0.2:
                    dep[i][j] += m[i * W + j] / 1024.0
    # water surface: plane + relief
    kind = draw(st.sampled_from(["flat", "plane", "relief", "both", "pit"]))
    si = draw(st.sampled_from([0.0, 0.5, -0.5, 0.125, 1.0]))
    sj = draw(st.sampled_from([0.0, -0.25, 0.25, 1.0]))
    base = draw(st.sampled_from([0.0, 10.0, 1024.0, -512.0, -3.0, 0.0]))
    small = draw(st.sampled_from([1.0, 2.0 ** -20, 2.0 ** -10, 8.0, 1.0]))     # height of the relief
    rel = draw(blob(n))
    stg = [[base] * W for _ in range(L)]
    for i in range(L):
        for j in range(W):
            s = 0.0
            if kind in ("plane", "both"):
                s += si * i + sj * j
            if kind in ("relief", "both"):
                s += LEVEL[rel[i * W + j] % len(LEVEL)]
                if fine:
                    s += (rel[i * W + j] // 8) / 512.0
            if kind == "pit":
                s += abs(i - L // 2) * 0.5 + abs(j - W // 2) * 0.25
            stg[i][j] = base + small * s
    # discharge
    fk = draw(st.sampled_from(["noise", "uniform", "vortex", "zero", "drift"]))
    a = draw(blob(n))
    b = draw(blob(n))
    qx = grid(a, FLUX, L, W)
    qy = grid(b, FLUX, L, W)
    ux = draw(st.sampled_from([1.0, 0.0, -1.0, 2.0]))
    uy = draw(st.sampled_from([0.0, 1.0, -1.0, 0.5]))
    for i in range(L):
        for j in range(W):
            if fk == "uniform":
                qx[i][j], qy[i][j] = ux, uy
            elif fk == "zero":
                qx[i][j], qy[i][j] = 0.0, 0.0
            elif fk == "vortex":
                qx[i][j], qy[i][j] = (i - (L - 1) / 2.0), (j - (W - 1) / 2.0)
            elif fk == "drift":
                qx[i][j], qy[i][j] = ux + qx[i][j] / 8, uy + qy[i][j] / 8
    if fine and fk in ("noise", "drift"):
        for i in range(L):
            for j in range(W):
                qx[i][j] += (b[i * W + j] // 16) / 256.0
                qy[i][j] -= (a[i * W + j] // 16) / 256.0
    much = draw(st.sampled_from([1.0, 2.0 ** -20, 2.0 ** -8, 256.0, 1.0, 1.0]))     # strength of the discharge
    if much != 1.0:
        qx = [[much * v for v in r] for r in qx]
        qy = [[much * v for v in r] for r in qy]
    if nan and draw(st.integers(0, 3)) == 3:
        m = draw(blob(n))
        much = draw(st.sampled_from([32, 32, 32, 32, 16, 7]))
        for i in range(L):
            for j in range(W):
                c = m[i * W + j] % much + 32 - much
                if c == 31:
                    dep[i][j] = NAN
                elif c == 30:
                    stg[i][j] = NAN
                elif c == 29:
                    qx[i][j] = NAN
                elif c == 28:
                    qy[i][j] = NAN
    d.update(dx=draw(st.sampled_from(list(dxs))), depth=dep, stage=stg, qx=qx, qy=qy)
    if models:
        d["model"] = draw(st.sampled_from([None, "DeltaRCM"]))
    else:
        d["model"] = None
    d["theta"] = draw(st.sampled_from([1.0, 0.0, 2.0, 1.3337, 0.125, 10.0, 0.5, 3.0])) if theta else 1.0
    d["gamma"] = draw(st.sampled_from([0.05, 0.0, 1.0, 0.123456, 0.0078125, 0.5, 0.95, 0.25]))
    d["diff"] = diff if diff is not None else draw(st.sampled_from([0.0, 0.2, 0.34567, 1.0, 1.99]))
    d["dry"] = draw(st.sampled_from([0.1, 0.01, 0.3, 0.0123, 0.0, 0.05])) if dry else 0.1
    if style == "shallow":
        d["dry"] = draw(st.sampled_from([0.01, 0.001, 0.0]))
    elif dry and water == "any" and draw(st.integers(0, 7)) == 7:      # a depth at, or next to, the depths of cells
        i = draw(st.integers(0, L - 1))
        low = [v for v in dep[i] + dep[L // 2] if 0 < v <= 2]
        if low:
            d["dry"] = min(low) * (1 + draw(st.sampled_from([1e-9, -1e-9, 0.0, 1e-6, -1e-6, 1e-7, 1e-4, -1e-4, 0.01])))
    d["sd"] = draw(st.booleans()) if sd is None else sd
    d["cell_type"] = None
    if celltypes:
        ck = draw(st.sampled_from(["inferred", "inferred", "noframe", "random", "framed"]))
        if ck != "inferred":
            m = draw(blob(n))
            ct = [[0] * W for _ in range(L)]
            for i in range(L):
                for j in range(W):
                    c = m[i * W + j]
                    ct[i][j] = ([0, 1, 0, 2, 1, 0, 2, 1] if c % 23 else [-1])[
                        (c // 23) % 8 if c % 23 else 0]
                    if ck == "noframe" and ct[i][j] == -1:
                        ct[i][j] = 1
                    if ck == "framed" and (i in (0, L - 1) or j in (0, W - 1)):
                        ct[i][j] = -1
            d["cell_type"] = ct
    if roi:
        m = draw(blob(n))
        d["roi"] = [[int(m[i * W + j] % 3 == 1) for j in range(W)] for i in range(L)]
        d["roi_dtype"] = draw(st.sampled_from(["int64", "bool", "float64", "uint8", "int8"]))
        if not draw(st.booleans()):
            d["roi"] = None
    d["dress"] = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0]))
    if tracked:
        d["vars"] = draw(st.lists(st.sampled_from(["depth", "stage", "qx", "qy", "u", "v"]),
                                  unique=True, max_size=4))
    return d


def arr(g, dtype="float64", layout=0):
    a = np.array(g, dtype=dtype)
    if layout % 4 == 2:
        return np.asfortranarray(a)
    if layout % 4 == 3 and a.ndim == 2:      # every second element of a larger array, the rows backwards
        big = np.full((2 * a.shape[0], 2 * a.shape[1]), 7, dtype=a.dtype)
        v = big[::-2, 1::2]
        v[...] = a
        return v
    return a


def undress(rs, d, p):
    """The same domain in another dress: number types, array types, and depth or stage given by the bed elevation.

    Only where it makes no difference at all."""
    with np.errstate(all="ignore"):
        if d.get("depth") is not None and d.get("stage") is not None and d.get("topography") is None and rs.rand() < 0.5:
            dep = np.nan_to_num(p.depth, nan=0.0)
            stg = np.where(dep == 0, np.nan, p.stage)
            top = np.nan_to_num(p.stage, nan=0.0) - dep
            how = rs.randint(3)
            if np.array_equal(np.where(dep == 0, np.nan, top + dep), stg, equal_nan=True) and how < 2:
                if how == 0:
                    del p.stage
                p.topography = top
            elif np.array_equal(np.nan_to_num(p.stage - top, nan=0.0), dep) and how == 2 and (dep >= 0).all():
                del p.depth
                p.topography = top
        for k in ("depth", "qx", "qy", "u", "v"):
            a = getattr(p, k, None)
            if a is not None and rs.rand() < 0.6:
                for t in ("int64", "int32")[rs.randint(2):]:
                    if getattr(p, "topography", None) is None and np.array_equal(a.astype(t), a):
                        setattr(p, k, a.astype(t))
                        break
    for k in ("theta", "gamma", "diff_coeff", "dry_depth", "dx"):
        v = getattr(p, k, None)
        if isinstance(v, float) and rs.rand() < 0.5:
            setattr(p, k, int(v) if v == int(v) and rs.rand() < 0.7 else np.float64(v))
    if d.get("model") is None and rs.rand() < 0.5:
        p.model = ["ANUGA", "", "Delft3D", None][rs.randint(4)]


def make_params(d, dtype="float64"):
    """modelParams with fresh copies of everything in the case."""
    import dorado.particle_track as pt
    p = pt.modelParams()
    p.verbose = bool(d.get("verbose", False))
    p.dx = d["dx"]
    layout = d.get("rng") or 0
    for k in ("depth", "stage", "topography", "qx", "qy", "u", "v"):
        if d.get(k) is not None:
            setattr(p, k, arr(d[k], dtype, layout))
    if d.get("model") is not None:
        p.model = d["model"]
    for k, name in (("theta", "theta"), ("gamma", "gamma"), ("diff", "diff_coeff"),
                    ("dry", "dry_depth"), ("sd", "steepest_descent")):
        if d.get(k) is not None:
            setattr(p, name, d[k])
    if d.get("cell_type") is not None:
        p.cell_type = arr(d["cell_type"], ["int64", "int8", "float64", "int64", "int32"][layout % 5], layout)
    if d.get("roi") is not None:
        p.roi_grid = arr(d["roi"], d.get("roi_dtype", "int64"), layout // 2)
    if d.get("vars") is not None:
        p.particle_variables = list(d["vars"])
    if d.get("dress"):
        undress(np.random.RandomState(d["dress"]), d, p)
    return p


def make_particles(d, dtype="float64"):
    import dorado.particle_track as pt
    return pt.Particles(make_params(d, dtype))


def seeds_for(d, b, border=True):
    """Turn a list of byte pairs into seed cells of the domain."""
    L, W = d["L"], d["W"]
    out = []
    for x, y in b:
        if border and x >= 192:
            out.append([x % L, y % W])
        elif y >= 160:   # away from the frame if there is such a place
            out.append([2 + x % (L - 4) if L > 4 else L // 2, 2 + y % (W - 4) if W > 4 else W // 2])
        else:
            out.append([1 + x % (L - 2), 1 + y % (W - 2)])
    return out


def byte_pairs(lo, hi):
    return st.lists(st.tuples(st.integers(0, 255), st.integers(0, 255)), min_size=lo, max_size=hi)


rng_seed = st.integers(0, 2 ** 31 - 1)


@st.composite
def walks(draw, L=None, W=None, lo=3, hi=9, max_p=8, max_len=12, min_p=1, extra=True,
          adjacent=None, int_times=None, start_time=True):
    """Hand-made walk data: dict(L, W, walk) with ragged histories inside an LxW grid."""
    if L is None:
        L = draw(st.integers(lo, hi))
    if W is None:
        W = draw(st.integers(lo, hi))
    npart = draw(st.integers(min_p, max_p))
    adj = draw(st.booleans()) if adjacent is None else adjacent
    fields = draw(st.sampled_from([[], [], ["depth"], ["roi_flag", "stage"]])) if extra else []
    w = dict(xinds=[], yinds=[], travel_times=[])
    for f in fields:
        w[f] = []
    for p in range(npart):
        n = draw(st.integers(1, max_len))
        b = draw(blob(3 * n))
        x, y = b[0] % L, b[1] % W
        t = [0.0, 0.0, 0.0, 10.0, 2.5][b[2] % 5] if start_time else 0.0
        xs, ys, ts = [x], [y], [t]
        for k in range(1, n):
            bx, by, bt = b[3 * k], b[3 * k + 1], b[3 * k + 2]
            if adj:
                x = min(max(x + bx % 3 - 1, 0), L - 1)
                y = min(max(y + by % 3 - 1, 0), W - 1)
            else:
                x, y = bx % L, by % W
            t = t + [1.0, 0.0, 0.5, 2.0, 0.25, 7.5, 100.0, 0.125][bt % 8] * (1 + bt // 64)
            xs.append(x)
            ys.append(y)
            ts.append(t)
        w["xinds"].append(xs)
        w["yinds"].append(ys)
        w["travel_times"].append(ts)
        for f in fields:
            w[f].append([int(v) % 2 if f == "roi_flag" else v / 16.0 for v in b[:n]])
    return dict(L=L, W=W, walk=w)


def pour(old, new):
    """The object old with the contents of new, as far as that is possible (otherwise new)."""
    if old is None or type(old) is not type(new):
        return new
    if isinstance(old, np.ndarray):
        if old.shape != new.shape or old.dtype != new.dtype:
            return new
        old[...] = new
    elif isinstance(old, list):
        old[:] = [pour(a, b) for a, b in zip(old, new)] + new[len(old):]
    elif isinstance(old, dict):
        for k in set(old) - set(new):
            del old[k]
        for k in new:
            old[k] = pour(old.get(k), new[k])
    else:
        return new
    return old


def grown(walk, b, call):
    """The walk, in objects that call() has seen before with other contents.

    call() is made on shorter histories (as during a simulation), the lists are then extended in place; and once on
    complete histories in the opposite direction, which are then turned round in place."""
    w = {f: [h[:1 + b[p] % len(h)] for p, h in enumerate(walk[f])] for f in walk}
    n = len(walk["xinds"])
    m = max(1, n - b[n] % 2)
    for f in w:
        del w[f][m:]
    call(w)
    for f in w:
        for p in range(n):
            if p < m:
                w[f][p].extend(walk[f][p][len(w[f][p]):])
            else:
                w[f].append(list(walk[f][p]))
    if b[n + 1] % 2:
        for f in ("xinds", "yinds"):
            for h in w[f]:
                h.reverse()
        call(w)
        for f in ("xinds", "yinds"):
            for h in w[f]:
                h.reverse()
    assert w == walk
    return w


def isnan(x):
    return isinstance(x, float) and math.isnan(x)


# Large walk data, described by sizes and a seed

@st.composite
def bulk_walks(draw, total=12000, shapes=((40, 60), (9, 12), (150, 90), (25, 200), (8, 300), (290, 270)),
               counts=(4, 900, 60, 1, 250, 20, 3000), long=2500):
    L, W = draw(st.sampled_from([list(s) for s in shapes]))
    n = draw(st.sampled_from(list(counts)))
    return dict(bulk=draw(rng_seed), L=L, W=W, n=n, longest=max(2, min(long, 2 * total // n)) if n > 1 else 24000,
                adjacent=draw(st.booleans()), ragged=draw(st.booleans()), late=draw(st.booleans()),
                fields=draw(st.sampled_from([[], ["depth"]])))


def expand_walk(c):
    rs = np.random.RandomState(c["bulk"])
    L, W = c["L"], c["W"]
    w = dict(xinds=[], yinds=[], travel_times=[], **{f: [] for f in c["fields"]})
    for p in range(c["n"]):
        m = rs.randint(1, c["longest"] + 1) if c["ragged"] else max(2, c["longest"] // 2)
        if c["adjacent"]:
            x = np.clip(rs.randint(L) + np.cumsum(rs.randint(-1, 2, m)), 0, L - 1)
            y = np.clip(rs.randint(W) + np.cumsum(rs.randint(-1, 2, m)), 0, W - 1)
        else:
            x, y = rs.randint(0, L, m), rs.randint(0, W, m)
        t = np.concatenate([[rs.randint(0, 5) * 2.5 if c["late"] else 0.0],
                            rs.choice([1.0, 0.5, 2.0, 0.0, 0.25, 7.5, 0.125, 30.0], m - 1) if m > 1 else []])
        w["xinds"].append([int(v) for v in x])
        w["yinds"].append([int(v) for v in y])
        w["travel_times"].append([float(v) for v in np.cumsum(t)])
        for f in c["fields"]:
            w[f].append([float(v) for v in rs.randint(0, 64, m) / 16.0])
    return dict(c, walk=w)
