"""C22 index and geographic coordinates convert back and forth consistently."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure

TECHNIQUE = "property-based testing (Hypothesis): round-trip and metamorphic relations"

# (cell sizes, origins) of realistic projected and geographic rasters
METRIC = ([1, 50.0, 0.5, 30, 12.3, 5000, 25000.0, 1000.0, 0.1], [0.0, 624200.0, 3346000.5, -1250000.25, 7, -0.5, 1e7])
DEGREE = ([0.001, 0.25, 0.0002777777, 1 / 3.0], [0.0, -91.25, 29.5, 179.999, -0.123456789])


@st.composite
def frames(draw):
    cs, org = draw(st.sampled_from([METRIC, DEGREE]))
    return dict(cell=draw(st.sampled_from(cs)), origin=[draw(st.sampled_from(org)), draw(st.sampled_from(org))],
                L=draw(st.sampled_from([1, 2, 5, 17, 100, 1234])), W=draw(st.sampled_from([1, 3, 8, 40, 999])),
                form=draw(st.sampled_from(["tuple", "list", "array", "float"])))


def form(v, f):
    return dict(tuple=tuple, list=list, array=np.array, float=lambda x: [float(q) for q in x])[f](v)


@st.composite
def cases(draw):
    f = draw(frames())
    f["walk"] = draw(gen.walks(L=f["L"], W=f["W"], max_p=5, max_len=8))["walk"]
    f["again"] = draw(st.sampled_from(["no", "grown", "frame", "both", "no"]))
    f["second"] = draw(frames())
    return f


def args(case):
    return form(case["origin"], case["form"]), form([case["L"], case["W"]], case["form"]), case["cell"]


def check_inds(case, ctx):
    import dorado.particle_track as pt
    walk = case["walk"]
    before = copy.deepcopy(walk)
    first_args = args(case)
    out = pt.ind2coord(walk, *first_args)
    ensure(set(out) == set(before) | {"xcoord", "ycoord"}, "converted walk data has the fields %s", sorted(out))
    for f in before:
        ensure(out[f] == before[f], "conversion changed %r", f)
    ref.check_walk(out, ["xcoord", "ycoord"], len(before["xinds"]), "converted walk data")
    pairs, inds = [], []
    for p in range(len(before["xinds"])):
        pairs += list(zip(out["xcoord"][p], out["ycoord"][p]))
        inds += ref.path(before, p)
    back = pt.coord2ind(pairs, *args(case))
    ensure(len(back) == len(inds), "%d points give %d indices", len(inds), len(back))
    for a, b, c in zip(inds, back, pairs):
        ensure(tuple(b) == tuple(a), "cell %r has coordinates %r, which convert to %r (%r)", a, c, b, args(case))
    # orientation and spacing
    cs = case["cell"]
    for a, c in zip(inds, pairs):
        for b, e in zip(inds[:6], pairs[:6]):
            tol = 1e-9 * (abs(c[0]) + abs(c[1]) + cs * (case["L"] + case["W"]))
            ensure(abs((e[0] - c[0]) - (b[1] - a[1]) * cs) <= tol and abs((e[1] - c[1]) + (b[0] - a[0]) * cs) <= tol,
                   "cells %r and %r are at %r and %r with cell size %r", a, b, c, e, cs)
    if case.get("again", "no") != "no":      # data converted before, grown since or in another frame
        # in the same objects or in new ones
        walk = out if case["L"] % 2 else copy.deepcopy(out)
        e = case["second"] if case["again"] != "grown" else case
        if case["again"] != "frame":
            for f in before:
                for h in walk[f]:
                    h.append(h[0])
        plain = {f: copy.deepcopy(walk[f]) for f in before}
        ar = first_args if e is case else (form(e["origin"], case["form"]), (case["L"], case["W"]), e["cell"])
        second, first = pt.ind2coord(walk, *ar), pt.ind2coord(plain, *ar)
        ensure({f: second[f] for f in first} == first and set(second) == set(first), "converting walk data again (%s) gives %r, "
               "converting it afresh %r", case["again"], second, first)
        ctx.label("again " + case["again"])
    ctx.nontrivial(len(set(inds)) > 1)


@st.composite
def points(draw):
    f = draw(frames())
    n = draw(st.integers(1, 12))
    b = draw(gen.blob(4 * n))
    f["points"] = [[(b[4 * k] * 256 + b[4 * k + 1]) / 65535.0 * f["W"], (b[4 * k + 2] * 256 + b[4 * k + 3]) / 65535.0 * f["L"]]
                   for k in range(n)]
    if draw(st.booleans()):      # outside the raster on all sides
        f["points"] = [[3 * x - f["W"], 3 * y - f["L"]] for x, y in f["points"]]
    f["shift"] = [draw(st.sampled_from([1.0, -64.0, 4096.0, 0.5])), draw(st.sampled_from([2.0, -128.0, 0.25]))]
    f["ptform"] = draw(st.sampled_from(["tuple", "list", "array"]))
    return f


def check_points(case, ctx):
    import dorado.particle_track as pt
    cs = float(case["cell"])
    ox, oy = case["origin"]
    pts = [(ox + x * cs, oy + y * cs) for x, y in case["points"]]
    f = dict(tuple=lambda v: [tuple(q) for q in v], list=lambda v: [list(q) for q in v], array=np.array)[case["ptform"]]
    given, ar = f(pts), args(case)
    if len(pts) % 2:      # the same objects with other contents before
        want = copy.deepcopy(given)
        given[:] = [type(q)([q[0] + 3 * cs, q[1] - cs]) if not isinstance(q, np.ndarray) else q + cs for q in given]
        pt.coord2ind(given, *ar)
        given[:] = want
    inds = pt.coord2ind(given, *ar)
    ensure(len(inds) == len(pts), "%d points give %d indices", len(pts), len(inds))
    walk = dict(xinds=[[i[0] for i in inds]], yinds=[[i[1] for i in inds]], travel_times=[[0.0] * len(inds)])
    out = pt.ind2coord(walk, *args(case))
    for k, (p, i) in enumerate(zip(pts, inds)):
        ensure(isinstance(i[0], int) and isinstance(i[1], int), "index %r", i)
        dx, dy = out["xcoord"][0][k] - p[0], out["ycoord"][0][k] - p[1]
        tol = cs * 0.5 + 1e-9 * (cs + abs(p[0]) + abs(p[1]))
        ensure(abs(dx) <= tol and abs(dy) <= tol, "point %r becomes cell %r at %r, cell size %r", p, i,
               (out["xcoord"][0][k], out["ycoord"][0][k]), cs)
    order = sorted(range(len(pts)), key=lambda k: pts[k][0])
    for a, b in zip(order, order[1:]):
        ensure(inds[a][1] <= inds[b][1], "columns %r, %r of points %r, %r", inds[a][1], inds[b][1], pts[a], pts[b])
    order = sorted(range(len(pts)), key=lambda k: pts[k][1])
    for a, b in zip(order, order[1:]):
        ensure(inds[a][0] >= inds[b][0], "rows %r, %r of points %r, %r", inds[a][0], inds[b][0], pts[a], pts[b])
    # moving everything
    sx, sy = case["shift"][0], case["shift"][1]
    o2 = form([ox + sx, oy + sy], case["form"])
    i2 = pt.coord2ind([(x + sx, y + sy) for x, y in pts], o2, (case["L"], case["W"]), case["cell"])
    for (x, y), a, b in zip(case["points"], inds, i2):
        # not where rounding could go either way
        if abs((x % 1) - 0.5) > 1e-4 and abs((y % 1) - 0.5) > 1e-4:
            ensure(tuple(a) == tuple(b), "cell %r becomes %r when origin and points move by %r", a, b, case["shift"])
    ctx.label("degrees" if cs < 0.3 and cs != 0.1 and cs != 0.25 else "metric")
    ctx.nontrivial(len(set(map(tuple, inds))) > 1)


SUBS = [
    Sub("indices", cases, check_inds, 4000, 60000, "walks on rasters up to 1234 x 999, metric and geographic origins and "
        "cell sizes: index to coordinate and back, spacing, nothing else changed; non-trivial with two cells"),
    Sub("points", points, check_points, 4000, 60000, "points in and around such rasters: back within half a cell, orientation, "
        "translation; non-trivial with two cells"),
]


@st.composite
def bulk_cases(draw):
    f = draw(frames())
    f["big"] = draw(gen.bulk_walks(total=4000, shapes=((f["L"], f["W"]),)))
    return f


def check_bulk(case, ctx):
    check_inds(dict(case, walk=gen.expand_walk(case["big"])["walk"]), ctx)


@st.composite
def bulk_points(draw):
    f = draw(frames())
    f.update(n=draw(st.sampled_from([300, 2000, 60, 900])), bulk=draw(gen.rng_seed), shift=[4096.0, -128.0],
             ptform=draw(st.sampled_from(["tuple", "list", "array"])))
    return f


def check_bulk_points(case, ctx):
    p = np.random.RandomState(case["bulk"]).uniform(-0.5, 1.5, (case["n"], 2)) * [case["W"], case["L"]]
    check_points(dict(case, points=p.tolist()), ctx)


SUBS += [Sub("bulk indices", bulk_cases, check_bulk, 48, 800, "up to 3000 particles and histories of up to 2500 entries"),
         Sub("bulk points", bulk_points, check_bulk_points, 48, 800, "60 to 2000 points in one call")]
