"""C35 plots honour the requested colours."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots
from pbt.core import Sub, ensure, scratch

TECHNIQUE = "property-based testing (Hypothesis): colours of the drawn artists against the generated options and values"
NAMES = ["red", "#00ff88", "0.25", "dodgerblue", "b", "C1"]
MAPS = ["viridis", "Reds", "magma", "coolwarm", "gray", "Blues_r"]


def raster(case):
    return np.array([[1.0 + (i * 5 + j * 3) % 7 for j in range(case["W"])] for i in range(case["L"])])


def collections(fig, kind):
    return [c for ax in fig.get_axes() for c in ax.collections if type(c).__name__ == kind]


def near(a, b, tol=1e-6):
    return np.abs(np.asarray(a, float) - np.asarray(b, float)).max() <= tol


def face(c, n, want, what):
    from matplotlib.colors import to_rgba
    f = c.get_facecolors()
    ensure(len(f) in (1, n) and all(near(r, to_rgba(want)) for r in f), "%s has the colour %r, %r was asked for", what,
           np.asarray(f).tolist(), want)


@st.composite
def states(draw):
    c = draw(gen.walks(max_p=6, max_len=5))
    c["c"] = draw(st.sampled_from([None] + NAMES))
    c["time"] = draw(st.sampled_from([None, 3.0]))
    return c


def check_state(case, ctx):
    import dorado.routines as rt
    n = len(case["walk"]["xinds"])
    kw = {} if case["c"] is None else dict(c=case["c"])
    if case["time"] is not None:
        kw["target_time"] = case["time"]
    with plots.figures():
        ax = rt.plot_state(raster(case), case["walk"], **kw)
        cs = collections(ax.figure, "PathCollection")
        ensure(len(cs) == 1, "%d sets of markers", len(cs))
        face(cs[0], n, case["c"] or "b", "the state")
    ctx.label("default" if case["c"] is None else "chosen")
    ctx.nontrivial(case["c"] not in (None, "b"))


@st.composite
def snakes(draw):
    c = draw(gen.walks(max_p=5, max_len=26, adjacent=True))
    c["interval"] = draw(st.sampled_from([1, 2, 3, None]))
    c["tail"] = draw(st.sampled_from([2, 3, 5, None, 1]))
    c["steps"] = draw(st.sampled_from([3, 5, 8, 2]))
    b = list(draw(gen.blob(8)))
    c["rgba"] = [[x / 255.0 for x in b[:4]], [x / 255.0 for x in b[4:]]]
    c["given"] = draw(st.sampled_from([[1, 1], [1, 0], [0, 1], [0, 0], [1, 1]]))
    return c


def check_snakes(case, ctx):
    import dorado.routines as rt
    walk = case["walk"]
    iv, tail = case["interval"] or 4, case["tail"] or 12
    kw = {}
    if case["interval"]:
        kw["interval"] = iv
    if case["tail"]:
        kw["tail_length"] = tail
    ends = [[1, 0.4, 0.2, 1], [1, 0.3, 0.1, 0]]
    for k, name in enumerate(("rgba_start", "rgba_end")):
        if case["given"][k]:
            ends[k] = list(case["rgba"][k])
            kw[name] = list(case["rgba"][k])
    with scratch(), plots.figures() as saved:
        rt.snake_plots(raster(case), walk, case["steps"], folder_name="o", **kw)
    for k, name in enumerate(("rgba_start", "rgba_end")):
        ensure(name not in kw or kw[name] == case["rgba"][k], "%s was modified", name)
    paths = [[[float(y), float(x)] for x, y in zip(a, b)] for a, b in zip(walk["xinds"], walk["yinds"])]
    ramp = [[ends[0][q] + (ends[1][q] - ends[0][q]) * (k / float(tail - 1) if tail > 1 else 0) for q in range(4)]
            for k in range(tail)]
    far = 0
    for fig, path, s in saved:
        ii = int(re.findall(r"\d+", os.path.basename(path))[-1])
        ensure(any(re.search(r"(?<!\d)%d$" % ii, t) for t in s["titles"]), "figure of iteration %d has the titles %r", ii,
               s["titles"])
        drawn = []
        for c in collections(fig, "LineCollection"):
            cols = c.get_colors()
            for k, seg in enumerate(c.get_segments()):
                drawn.append(([[float(v) for v in r] for r in np.asarray(seg)], cols[k % len(cols)]))
        for seg, col in drawn:
            ensure(any(near(col, r) for r in ramp), "iteration %d: a segment has the colour %r, the tail goes from %r to %r in "
                   "%d steps", ii, list(col), ends[0], ends[1], tail)
        for p, h in enumerate(paths):
            if len(h) < ii:
                continue
            for k in range(tail):
                e = ii - 1 - k * iv       # where segment k of the tail ends; one entry later is accepted as well
                if e - iv < 0:
                    break
                far = max(far, k)
                cols = [c for seg, c in drawn if seg == [h[e - iv], h[e]] or
                        (e + 1 < len(h) and seg == [h[e - iv + 1], h[e + 1]])]
                ensure(any(near(c, ramp[k]) for c in cols), "iteration %d: segment %d of the tail of particle %d has the "
                       "colours %r, expected %r", ii, k, p, [list(c) for c in cols], ramp[k])
    ctx.label("segments=%d" % (far + 1))
    ctx.nontrivial(far > 0 and len(paths) > 1)


@st.composite
def legends(draw):
    c = draw(gen.walks(max_p=8, max_len=6))
    n = len(c["walk"]["xinds"])
    c["follow"] = draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)))
    c["rng"] = draw(gen.rng_seed)
    return c


def check_legend(case, ctx):
    import dorado.routines as rt
    from matplotlib.colors import to_rgba
    walk = case["walk"]
    follow = list(range(len(walk["xinds"]))) if case["follow"] is None else case["follow"]
    kw = {} if case["follow"] is None else dict(particles_to_follow=list(follow))
    np.random.seed(case["rng"])
    with scratch(), plots.figures() as saved:
        rt.draw_travel_path(raster(case), walk, plot_legend=True, **kw)
        fig = saved[-1][0]
        lc = collections(fig, "LineCollection")
        segs = [(seg, c.get_colors()[k % len(c.get_colors())]) for c in lc for k, seg in enumerate(c.get_segments())]
        leg = [ax.get_legend() for ax in fig.get_axes() if ax.get_legend() is not None]
        ensure(len(leg) == 1, "%d legends", len(leg))
        names = [t.get_text() for t in leg[0].get_texts()]
        lines = [to_rgba(ln.get_color()) for ln in leg[0].get_lines()]
    ensure(names == [str(p) for p in follow], "the legend names %r, followed are %r", names, follow)
    ensure(len(segs) == len(follow) and len(lines) == len(follow), "%d paths and %d legend entries for %d particles", len(segs),
           len(lines), len(follow))
    for k, p in enumerate(follow):
        ensure(near(segs[k][1], lines[k]), "the path of particle %d has the colour %r, its legend entry %r", p,
               list(segs[k][1]), list(lines[k]))
    ctx.nontrivial(len(follow) > 1)


@st.composite
def heat(draw):
    c = draw(gen.walks(max_p=6, max_len=12, adjacent=True))
    c["kind"] = draw(st.sampled_from(["area", "time"]))
    c["sigma"] = draw(st.sampled_from([0, 0.7, 0.1]))
    c["cmap"] = draw(st.sampled_from([None] + MAPS))
    c["object"] = draw(st.booleans())
    c["alpha"] = draw(st.sampled_from([None, 0.5, 0.0, 1.0, 0.125]))
    c["seed"] = draw(st.sampled_from([None] + NAMES))
    c["bar"] = draw(st.sampled_from([None, True, False]))
    c["back"] = draw(st.booleans())
    return c


def check_heat(case, ctx):
    import dorado.particle_track as pt
    import dorado.routines as rt
    import matplotlib
    walk, area = case["walk"], case["kind"] == "area"
    v = (pt.nourishment_area if area else pt.nourishment_time)(walk, (case["L"], case["W"]), sigma=case["sigma"])
    good = ~np.isnan(v)
    kw = dict(walk_data=walk)
    if case["back"]:
        kw["grid"] = raster(case)
    name = case["cmap"] or ("Reds" if area else "magma")
    if case["cmap"]:
        kw["cmap"] = matplotlib.colormaps[name] if case["object"] else name
    if case["alpha"] is not None:
        kw["min_alpha"] = case["alpha"]
    if case["seed"]:
        kw["seed_color"] = case["seed"]
    if area:
        kw["sigma"] = case["sigma"]
    elif case["bar"] is not None:
        kw["show_colorbar"] = case["bar"]
    lo = case["alpha"] if case["alpha"] is not None else (0 if area else 0.3)
    with plots.figures():
        ax = (rt.show_nourishment_area if area else rt.show_nourishment_time)(v, **kw)
        cs = collections(ax.figure, "PathCollection")
        ensure(len(cs) == 1, "%d sets of markers for the start", len(cs))
        face(cs[0], 1, case["seed"] or "dodgerblue", "the start marker")
        top = [np.asarray(im.get_array()) for im in ax.get_images() if np.ndim(im.get_array()) == 3]
        bars = [a for a in ax.figure.get_axes() if a is not ax]
        scales = [(a.get_ylabel(), [float(y) for y in a.get_ylim()]) for a in bars]
    if case["alpha"] is None:     # the documented default
        with plots.figures():
            ax = (rt.show_nourishment_area if area else rt.show_nourishment_time)(v, min_alpha=lo, **kw)
            same = [np.asarray(im.get_array()) for im in ax.get_images() if np.ndim(im.get_array()) == 3]
        ensure(len(same) == len(top) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(top, same)), "without a least "
               "opacity given, the map differs from that of the documented default %r", lo)
    ensure(len(top) == 1 and top[0].shape == v.shape + (4,), "heat map of shape %r", [t.shape for t in top])
    rgb, a = top[0][..., :3], top[0][..., 3]
    if not good.any():
        return
    m, M = v[good].min(), v[good].max()
    ensure(np.all((a[good] >= lo - 1e-6) & (a[good] <= 1 + 1e-6)), "a cell with a value has the opacity %r, the least is %r",
           a[good].min(), lo)
    o = np.argsort(v[good], kind="stable")
    ensure(np.all(np.diff(a[good][o]) >= -1e-6), "a larger value is more transparent than a smaller one")
    ensure(np.all(np.isnan(a[~good]) | (a[~good] == 0)), "a cell without a value is drawn")
    if M - m > 1e-6 * M:
        want = matplotlib.colormaps[name]((v[good] - m) / (M - m))[:, :3]
        d = np.abs(rgb[good] - want).max(-1)
        ensure(d.max() <= 0.03, "a cell of value %r (values %r to %r) has the colour %r, %s has %r", v[good][d.argmax()], m, M,
               rgb[good][d.argmax()].tolist(), name, want[d.argmax()].tolist())
    if not area and case["bar"] is not False:
        ensure(len(scales) == 1 and "[s]" in scales[0][0], "colour bars %r", scales)
        if M - m > 1e-6 * M:
            ensure(near(scales[0][1], [m, M], 1e-6 * M), "the colour bar covers %r, the values %r to %r", scales[0][1], m, M)
    else:
        ensure(not scales, "colour bars %r", scales)
    ctx.label(case["kind"])
    ctx.label("cmap " + ("default" if not case["cmap"] else "object" if case["object"] else "name"))
    ctx.nontrivial(good.sum() > 2 and M > m)


SUBS = [
    Sub("state", states, check_state, 120, 2000, "marker colours by name, number and default, by iteration and time; non-trivial "
        "if not the default colour"),
    Sub("tails", snakes, check_snakes, 240, 4000, "tails of 1-12 segments with both, one or no colour given, intervals 1-4, "
        "histories of up to 26 entries; non-trivial if a tail has two segments and there are two particles"),
    Sub("legend", legends, check_legend, 120, 2000, "all or chosen particles in any order; non-trivial if more than one"),
    Sub("heat", heat, check_heat, 240, 4000, "both nourishment maps, colour maps by name, object and default, least opacities, "
        "seed colours, colour bars; non-trivial if two values differ"),
]
