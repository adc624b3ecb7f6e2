"""C31 position plots draw the recorded positions."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots
from pbt.core import Sub, ensure, scratch

TECHNIQUE = "property-based testing (Hypothesis): the artists of the drawn figures against the generated walk data"


def xy(walk, p, k):
    return [float(walk["yinds"][p][k]), float(walk["xinds"][p][k])]


def raster(case):
    L, W = case["L"], case["W"]
    return np.array([[(i * 7 + j * 3) % 11 for j in range(W)] for i in range(L)], dtype=float)[::[1, -1][L % 2]]


def background(s, g, what):
    ensure(any(np.array_equal(im, g) for im in s["images"]), "%s: the raster is not shown", what)


@st.composite
def states(draw):
    c = draw(gen.walks(max_p=8, max_len=9))
    c["it"] = draw(st.sampled_from([-1, 0, 1, 3, -2, 8, -5, 20, 2.0]))
    c["time"] = draw(st.sampled_from([None, 0.0, 3.3, 10.0, 55.5, 1e5, -2.0, None]))
    c["n"] = draw(st.sampled_from([0, 1]))
    return c


def check_state(case, ctx):
    import dorado.routines as rt
    import matplotlib.pyplot as plt
    walk, g = case["walk"], raster(case)
    keep, g0 = copy.deepcopy(walk), g.copy()
    n = len(walk["xinds"])
    with plots.figures():
        if case["n"]:
            plt.figure()
        kw = {}
        if case["time"] is not None:
            kw["target_time"] = case["time"]
            if case["it"] != -1:
                kw["iteration"] = case["it"]
        elif case["it"] != -1:
            kw["iteration"] = case["it"]
        ax = rt.plot_state(g, walk, c="r", **kw)
        ensure(ax is plt.gca() and len(plt.get_fignums()) == 1, "the returned axes are not the current ones")
        s = plots.shown(ax.figure)
    ensure(walk == keep and np.array_equal(g, g0), "the arguments were modified")
    background(s, g, "plot_state")
    ensure(len(s["markers"]) == 1 and len(s["markers"][0]) == n, "markers %r for %d particles", s["markers"], n)
    for p in range(n):
        m, h = s["markers"][0][p], len(walk["xinds"][p])
        if case["time"] is None:
            k = int(case["it"])
            ok = [k if -h <= k < h else h - 1]
        else:
            dist = [abs(t - case["time"]) for t in walk["travel_times"][p]]
            ok = [k for k in range(h) if dist[k] == min(dist)]
        ensure(any(m == xy(walk, p, k) for k in ok), "particle %d (history %r, times %r) is drawn at %r (column, row) for "
               "iteration %r, time %r", p, list(zip(walk["xinds"][p], walk["yinds"][p])), walk["travel_times"][p], m,
               case["it"], case["time"])
    ctx.label("by time" if case["time"] is not None else "by iteration")
    if len(walk) > 3:
        ctx.label("additional fields")
    ctx.nontrivial(n > 1 and len({len(h) for h in walk["xinds"]}) > 1)


@st.composite
def travel(draw):
    c = draw(gen.walks(max_p=7, max_len=14))
    n = len(c["walk"]["xinds"])
    c["follow"] = draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    c["interval"] = draw(st.sampled_from([1, 2, 3, 5, 20]))
    c["legend"] = draw(st.booleans())
    c["file"] = draw(st.sampled_from(["p.png", None, os.path.join("sub", "q.png")]))
    return c


def check_travel(case, ctx):
    import dorado.routines as rt
    walk, g = case["walk"], raster(case)
    keep, g0 = copy.deepcopy(walk), g.copy()
    follow = list(range(len(walk["xinds"]))) if case["follow"] is None else case["follow"]
    kw = {}
    if case["follow"] is not None:
        kw["particles_to_follow"] = list(case["follow"])
    if case["interval"] != 1:
        kw["interval"] = case["interval"]
    if case["legend"]:
        kw["plot_legend"] = True
    with scratch() as d, plots.figures() as saved:
        os.mkdir("sub")
        if case["file"]:
            kw["output_file"] = case["file"]
        if len(follow) % 2:
            plots.earlier(case["file"] or "travel_paths.png")
        rt.draw_travel_path(g, walk, **kw)
        ensure(plots.tree(d) == [case["file"] or "travel_paths.png"], "files %r", plots.tree(d))
        ensure(not plots.kept(d), "the figure of an earlier call stays as it was")
        s = saved[-1][2]
        legend = saved[-1][0].gca().get_legend()
        names = [t.get_text() for t in legend.get_texts()] if legend is not None else None
    ensure(walk == keep and np.array_equal(g, g0), "the arguments were modified")
    ensure(case["follow"] is None or kw["particles_to_follow"] == case["follow"], "the list of particles was modified")
    background(s, g, "draw_travel_path")
    want = [[xy(walk, p, k) for k in range(0, len(walk["xinds"][p]), case["interval"])] for p in follow]
    got = [seg for ls in s["lines"] for seg in ls]
    ensure(got == want, "paths %r, expected %r (particles %r, interval %d)", got, want, follow, case["interval"])
    if case["legend"]:
        ensure(names == [str(p) for p in follow], "legend %r for particles %r", names, follow)
    if len(walk) > 3:
        ctx.label("additional fields")
    ctx.label("all particles" if case["follow"] is None else "chosen particles")
    ctx.nontrivial(case["interval"] > 1 and any(len(w) > 1 for w in want) and len(want) > 1)


@st.composite
def snakes(draw):
    c = draw(gen.walks(max_p=5, max_len=26, adjacent=True))
    c["interval"] = draw(st.sampled_from([None, 1, 2, 3, 5]))
    c["tail"] = draw(st.sampled_from([None, 1, 3, 6]))
    c["steps"] = draw(st.sampled_from([2, 3, 5, 1, 8]))
    c["folder"] = draw(st.sampled_from(["out", None, "a/b", "there"]))
    return c


def check_snakes(case, ctx):
    import dorado.routines as rt
    walk, g = case["walk"], raster(case)
    keep, g0 = copy.deepcopy(walk), g.copy()
    iv, tail = case["interval"] or 4, case["tail"] or 12
    kw = {}
    if case["interval"]:
        kw["interval"] = iv
    if case["tail"]:
        kw["tail_length"] = tail
    if case["folder"]:
        kw["folder_name"] = case["folder"]
    n = len(walk["xinds"])
    longest = max(len(h) for h in walk["xinds"])
    with scratch() as d, plots.figures() as saved:
        os.mkdir("there")
        root = case["folder"] + "/" if case["folder"] else ""
        its = [ii for ii in range(iv, case["steps"] * iv, iv) if ii <= longest]
        if case["folder"] == "there":
            plots.earlier(*["there/figs/snakefig%d.png" % ii for ii in its])
        rt.snake_plots(g, walk, case["steps"], **kw)
        exp = [root + "figs/snakefig%d.png" % ii for ii in its]
        ensure(plots.tree(d) == sorted(exp), "files %r, expected %r (longest history %d)", plots.tree(d), exp, longest)
        ensure(not plots.kept(d), "figures of an earlier call stay as they were: %r", plots.kept(d))
    ensure(walk == keep and np.array_equal(g, g0), "the arguments were modified")
    paths = [[xy(walk, p, k) for k in range(len(walk["xinds"][p]))] for p in range(n)]
    for ii, (fig, path, s) in zip(its, saved):
        ensure(path.endswith("snakefig%d.png" % ii), "figure %s for iteration %d", path, ii)
        background(s, g, "snake_plots")
        segs = [seg for ls in s["lines"] for seg in ls]
        ok = []
        for h in paths:
            if len(h) >= ii:
                ok.append(h[0:2])
                # either end of the stride may lie one entry off
                ok += [[h[a], h[a + iv]] for a in range(max(0, ii - iv * (tail + 1) - 1), ii - iv + 1) if a + iv < len(h)]
        for seg in segs:
            ensure(seg in ok, "iteration %d: segment %r joins no two recorded positions %d apart up to then (%r)", ii,
                   seg, iv, paths)
        for h in paths:
            if len(h) >= ii and ii >= iv + 1:
                a = ii - 1
                ensure([h[a - iv], h[a]] in segs or (a + 1 < len(h) and [h[a - iv + 1], h[a + 1]] in segs),
                       "iteration %d: the most recent part %r of a path is missing (segments %r)", ii,
                       [h[a - iv], h[a]], segs)
    if len(walk) > 3:
        ctx.label("additional fields")
    ctx.label("figures", len(its))
    ctx.nontrivial(len(its) > 1 and n > 1)


@st.composite
def heat(draw):
    c = draw(gen.walks(max_p=6, max_len=12, adjacent=True))
    c["kind"] = draw(st.sampled_from(["area", "time"]))
    c["sigma"] = draw(st.sampled_from([0.7, 0, 0.1]))
    c["grid"] = draw(st.booleans())
    c["walkdata"] = draw(st.sampled_from([True, True, False]))
    c["seed"] = draw(st.sampled_from([None, True, False]))
    c["bar"] = draw(st.sampled_from([None, False]))
    return c


def check_heat(case, ctx):
    import dorado.particle_track as pt
    import dorado.routines as rt
    walk, g = case["walk"], raster(case) + 1
    keep = copy.deepcopy(walk)
    area = case["kind"] == "area"
    h = (pt.nourishment_area if area else pt.nourishment_time)(walk, (case["L"], case["W"]), sigma=case["sigma"])
    h0 = h.copy()
    kw = dict(grid=g if case["grid"] else None, walk_data=walk if case["walkdata"] else None)
    if case["seed"] is not None:
        kw["show_seed"] = case["seed"]
    if area:
        kw["sigma"] = case["sigma"]
    elif case["bar"] is not None:
        kw["show_colorbar"] = case["bar"]
    with plots.figures():
        ax = (rt.show_nourishment_area if area else rt.show_nourishment_time)(h, **kw)
        s = plots.shown(ax.figure)
    ensure(walk == keep and np.array_equal(h, h0, equal_nan=True), "the arguments were modified")
    if case["grid"]:
        background(s, g, "nourishment")
    top = [im for im in s["images"] if im.ndim == 3]
    ensure(len(top) == 1 and top[0].shape == (case["L"], case["W"], 4), "heat map of shape %r", [t.shape for t in top])
    # where the map has values: larger values are never more transparent
    v, a = h.ravel(), top[0][..., 3].ravel()
    good = np.flatnonzero(~np.isnan(v))
    o = good[np.argsort(v[good], kind="stable")]
    ensure(np.all(np.diff(a[o]) >= -1e-9), "larger values are drawn more transparent")
    seed = case["walkdata"] and case["seed"] is not False
    want = [[xy(walk, 0, 0)]] if seed else []
    ensure(s["markers"] == want, "markers %r, the first particle starts at %r (column, row), shown: %r", s["markers"],
           xy(walk, 0, 0), seed)
    ctx.label(case["kind"])
    ctx.nontrivial(seed and xy(walk, 0, 0)[0] != xy(walk, 0, 0)[1])


@st.composite
def spatial(draw):
    k = draw(st.integers(1, 4))
    R, C = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    vals = [1.0, 2.0, float("nan"), 8.5, 0.0, 40.0, 3.0, 16.0]
    return dict(L=R * k + draw(st.integers(0, k - 1)), W=C * k + draw(st.integers(0, k - 1)),
                maps=[gen.grid(draw(gen.blob(R * C)), vals, R, C) for _ in range(3)],
                top=draw(st.sampled_from([15, 30, 10.0])), levels=draw(st.sampled_from([6, 4, 11])))


def check_spatial(case, ctx):
    import dorado.spatial as sp
    import matplotlib
    el = raster(case)
    maps = [np.array(m) for m in case["maps"]]
    keep, el0 = [m.copy() for m in maps], el.copy()
    with plots.figures():
        res = sp.plot_spatial(maps, el, case["top"], case["levels"], matplotlib.colormaps["viridis"], "Exposure [d]")
        fig, cax = res[0], res[2]
        fig.canvas.draw_idle()
        labels = [t.get_text() for t in cax.get_xticklabels()]
        panels = [ax for ax in fig.get_axes() if len(ax.get_images()) == 2]
        bands = np.linspace(0, case["top"], case["levels"])
        probe = np.array([bands[:-1] + 0.1 * np.diff(bands), bands[:-1] + 0.9 * np.diff(bands)])
        for k, ax in enumerate(panels):
            rgba = ax.get_images()[1].to_rgba(probe)
            ensure(np.array_equal(rgba, res[3].mappable.to_rgba(probe)), "panel %d and the colour bar use different colours", k)
            ensure(np.array_equal(rgba[0], rgba[1]) and len({tuple(c) for c in rgba[0]}) == len(bands) - 1,
                   "panel %d: the colours do not change at the levels of the colour bar %r", k, bands.tolist())
            box = ax.get_position()
            names = [t.get_text() for t in fig.texts if box.x0 < t.get_position()[0] < box.x1]
            ensure(len(names) == 1 and str([50, 75, 90][k]) in names[0], "panel %d is labelled %r", k, names)
        ims = [[(np.ma.filled(np.ma.masked_invalid(im.get_array()).astype(float), np.nan), list(im.get_extent()))
                for im in ax.get_images()] for ax in fig.get_axes() if len(ax.get_images()) == 2]
        ensure(cax.get_xlabel() == "Exposure [d]", "colour bar label %r", cax.get_xlabel())
    ensure(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(maps, keep)) and np.array_equal(el, el0),
           "the maps were modified")
    ensure(len(ims) == 3, "%d panels for three maps", len(ims))
    for k, panel in enumerate(ims):
        ensure(np.array_equal(panel[0][0], el), "panel %d does not show the raster in the background", k)
        ensure(np.array_equal(panel[1][0], keep[k], equal_nan=True), "panel %d shows %r, map %d is %r", k,
               panel[1][0].tolist(), k, keep[k].tolist())
        for im, ext in panel:
            ensure(ext == [0, case["W"], case["L"], 0], "panel %d covers %r on a raster of %d x %d", k, ext, case["L"],
                   case["W"])
    ensure(labels == ["%d" % b for b in bands[:-1]] + ["%d+" % int(case["top"])], "colour bar %r for the levels %r", labels,
           bands.tolist())
    ctx.nontrivial(case["L"] != case["W"])


SUBS = [
    Sub("state", states, check_state, 480, 6000, "ragged walks with and without additional fields, by iteration (beyond "
        "both ends) and by time; non-trivial if histories differ in length"),
    Sub("travel", travel, check_travel, 320, 4000, "all or chosen particles in any order, intervals 1-20, legends, output "
        "files; non-trivial if thinned and more than one path"),
    Sub("snakes", snakes, check_snakes, 240, 3000, "histories of up to 26 entries, intervals 1-5, tails 1-12, 1-8 steps; "
        "non-trivial if several figures and particles"),
    Sub("heat", heat, check_heat, 240, 3000, "nourishment maps with and without raster, seed marker, colour bar; "
        "non-trivial if the start is off the diagonal"),
    Sub("spatial", spatial, check_spatial, 96, 1200, "percentile maps of 1-5 x 1-5 blocks; non-trivial if not square"),
]


@st.composite
def bulk_states(draw):
    c = draw(gen.bulk_walks(total=3000, shapes=((60, 40), (9, 12)), counts=(30, 300, 120), long=400))
    c.update(it=draw(st.sampled_from([-1, 0, 150, 12])), time=draw(st.sampled_from([None, 33.3, 200.0])), n=0)
    return c


@st.composite
def bulk_travel(draw):
    c = draw(gen.bulk_walks(total=13000, shapes=((60, 40), (9, 12)), counts=(30, 1, 5, 60, 110), long=26000))
    c.update(follow=draw(st.one_of(st.none(), st.just(list(range(c["n"] - 1, -1, -1))))), interval=draw(st.sampled_from([1, 3, 7])),
             legend=draw(st.booleans()), file="p.png")
    return c


@st.composite
def bulk_snakes(draw):
    c = draw(gen.bulk_walks(total=2000, shapes=((60, 40),), counts=(30, 5, 60), long=300))
    c.update(adjacent=True, interval=draw(st.sampled_from([None, 2, 10])), tail=draw(st.sampled_from([None, 20, 40])),
             steps=draw(st.sampled_from([12, 5, 25])), folder="out")
    return c


@st.composite
def bulk_heat(draw):
    c = draw(gen.bulk_walks(total=4000, shapes=((60, 40), (25, 110)), counts=(30, 300), long=300))
    c.update(kind=draw(st.sampled_from(["area", "time"])), sigma=0.7, grid=True, walkdata=True, seed=None, bar=None)
    return c


def big(check):
    return lambda case, ctx: check(gen.expand_walk(case), ctx)


SUBS += [
    Sub("bulk state", bulk_states, big(check_state), 24, 300, "30 to 300 particles, histories of up to 400 entries"),
    Sub("bulk travel", bulk_travel, big(check_travel), 24, 300, "1 to 110 particles, histories of up to 26000 entries"),
    Sub("bulk snakes", bulk_snakes, big(check_snakes), 20, 200, "5 to 60 particles, up to 24 figures"),
    Sub("bulk heat", bulk_heat, big(check_heat), 16, 200, "rasters of 60x40 and 25x110"),
]
