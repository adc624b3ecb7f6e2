"""C32 analysis and plotting never modify their inputs, and repeating a call gives the same result."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots
from pbt.core import Sub, ensure, scratch
from pbt.ref import BASE

TECHNIQUE = "property-based testing (Hypothesis): before/after comparison and repetition of calls on generated arguments"

PURE = ["exposure_time", "nourishment_area", "nourishment_time", "coord2ind", "ind2coord", "unstruct2grid",
        "flux_proportional_seeding", "get_state", "get_time_state", "systemwide", "localized", "compute_thresholds",
        "median_absolute_deviation_filter"]
PLOTS = ["plot_exposure_time", "plot_exposure_time_thresholds", "draw_travel_path", "plot_state", "snake_plots",
         "show_nourishment_area", "show_nourishment_time", "plot_spatial"]


def strategy(names):
    @st.composite
    def cases(draw):
        c = draw(gen.walks(lo=4, max_p=6, max_len=10))
        L, W = c["L"], c["W"]
        b = draw(gen.blob(L * W))
        c["mask"] = [[int(b[i * W + j] % 2) for j in range(W)] for i in range(L)]
        c["b"] = list(draw(gen.blob(40)))
        c["fn"] = draw(st.sampled_from(names))
        c["dtype"] = draw(st.sampled_from(["int64", "float64", "uint8"]))
        c["other"] = draw(st.booleans())
        c["arrays"] = draw(st.booleans())
        return c
    return cases


def arguments(case):
    """(positional, keyword) arguments of the call, built afresh."""
    b, L, W = case["b"], case["L"], case["W"]
    walk = copy.deepcopy(case["walk"])
    mask = np.array(case["mask"]).astype(case["dtype"])
    n = len(walk["xinds"])
    box = np.array if case["arrays"] else list      # arrays are as good as lists where sequences are expected
    el = np.arange(L * W, dtype=float).reshape(L, W) % 7
    q = [[0.0, 1.5, 3.0, float("nan")][x % 4] for x in b[:16]]
    et = [[0.0, 1.0, 2.5, 0.5, 11.0, 1e-7, 1e9][x % 7] for x in b[:n]]
    for h in walk["travel_times"]:
        h[-1] += 10.0
    maps = [np.array([[1.0, 2.5, float("nan"), 9.0][x % 4] for x in b[k:k + 4]]).reshape(2, 2) for k in range(3)]
    area = np.array([[0.25, 1.0, float('nan'), 0.5][(b[(3 * i + 5 * j) % 40] // 4) % 4] for i in range(L) for j in range(W)]).reshape(L, W)
    area[0, 0] = 1.0
    if b[6] % 3 == 0:
        area = el / 7.0
    elif b[7] % 3 == 0:                 # visited at a few cells only
        area = np.where(np.arange(L * W).reshape(L, W) % 5 == 0, area, 0.0)
    sig = [0.7, 0, 2][b[0] % 3]
    out = ["out", None, "a/b"][b[1] % 3]
    fol = {"folder_name": out} if out else {}
    pts = [(float(b[k] % 9), float(b[k + 1] % 7)) for k in range(0, 20, 2)]
    return dict(
        exposure_time=lambda: ([walk, mask], {}),
        nourishment_area=lambda: ([walk, (L, W)], dict(sigma=sig, clip=[99.5, 60][b[2] % 2])),
        nourishment_time=lambda: ([walk, (L, W)], dict(sigma=sig, clip=[99.5, 60][b[2] % 2])),
        coord2ind=lambda: ([box([list(p) for p in pts]), box([0.0, 0.0]), box([8, 10]), 1.0], {}),
        ind2coord=lambda: ([walk, box([0.5, -3.0]), box([L, W]), [1.0, 2.5][b[0] % 2]], {}),
        unstruct2grid=lambda: ([box([list(p) for p in pts]), box([float(x) for x in b[:10]]), [1.0, 0.5][b[3] % 2], 1 + b[4] % 4],
                               dict(boundary=[None, box([[0.5, 0.5], [7.25, 1.25], [4.0, 6.5]])][b[5] % 2])),
        flux_proportional_seeding=lambda: ([np.array([x - 100.0 for x in b[:8]]).reshape([(8,), (8, 1)][b[9] % 2]),
                                            50, 8], {}),
        get_state=lambda: ([walk, b[0] % 12 - 4], {}),
        get_time_state=lambda: ([walk, b[0] / 3.0], {}),
        systemwide=lambda: ([walk, el, mask, 1 + b[0] % 3], {}),
        localized=lambda: ([walk, el, mask, 1 + b[0] % 3], {}),
        compute_thresholds=lambda: ([[[float(1 + x % 9) + k for k, x in enumerate(b[i:i + 7])] + [0.0] if b[i] % 4 else
                                      [float("nan"), []][b[i] % 8 // 4] for i in range((L // 2) * (W // 2))], el, 60, 2],
                                    {}),
        median_absolute_deviation_filter=lambda: ([np.array(q).reshape(4, 4), 3, 1 + b[0] % 3], {}),
        plot_exposure_time=lambda: ([walk, box(et)], dict(save_output=b[2] % 2 == 0 and not case["arrays"], show_thresholds=b[3] % 2 == 0, **fol)),
        plot_exposure_time_thresholds=lambda: ([walk, box(et)], dict(save_output=b[2] % 2 == 0, **fol)),
        draw_travel_path=lambda: ([el, walk], dict(particles_to_follow=["all", ([k for k in range(n) if b[k] % 2] or [0])[::1 - 2 * (b[19] % 2)]
                                                                        ][b[20] % 2], interval=1 + b[21] % 3)),
        plot_state=lambda: ([el, walk], [dict(), dict(iteration=b[0] % 6), dict(target_time=b[0] / 5.0)][b[1] % 3]),
        snake_plots=lambda: ([el, walk, 3], dict(interval=1 + b[2] % 3, tail_length=1 + b[3] % 4,
                                                 rgba_start=box([1, 0.4, 0.2, 1]), rgba_end=box([1, 0.3, 0.1, 0]), **fol)),
        show_nourishment_area=lambda: ([area], dict(grid=el + 1, walk_data=walk, sigma=sig)),
        show_nourishment_time=lambda: ([area * 60], dict(grid=el + 1, walk_data=walk)),
        plot_spatial=lambda: ([maps, el, 15, 4], dict(title="t")),
    )[case["fn"]]()


def frozen(x):
    """Comparable copy of an argument or a result."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ("dict", [(k, frozen(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [frozen(v) for v in x])
    if isinstance(x, (np.floating, np.integer)):
        x = x.item()
    if isinstance(x, float) and x != x:
        return "nan"
    if callable(x):
        return "function"
    return x


def spoil(x):
    """Overwrites what can be overwritten."""
    if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "iuf":
        x[...] = 7
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x[:] = [3.5] * (len(x) + 1)
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)


def invoke(case, args, kw, spoiled=False):
    import dorado.particle_track as pt
    import dorado.routines as rt
    import dorado.spatial as sp
    import matplotlib
    import matplotlib.pyplot as plt
    name = case["fn"]
    f = next(getattr(m, name) for m in (pt, rt, sp) if name in vars(m))
    if name not in PLOTS:
        r = f(*args, **kw)
        z = frozen(r)
        if spoiled:
            spoil(r)
        return z
    if name == "plot_spatial":
        kw = dict(kw, cmap=matplotlib.colormaps["viridis"])
    with scratch() as d, plots.figures() as saved:
        f(*args, **kw)
        files = [(n, open(os.path.join(d, n), "rb").read()) for n in plots.tree(d)]
        return frozen([files, [s[2] for s in saved], [plots.shown(plt.figure(k)) for k in plt.get_fignums()]])


def check(case, ctx):
    name = case["fn"]
    args, kw = arguments(case)
    ref, refkw = arguments(case)
    before, beforekw = frozen(args), frozen(kw)
    first = invoke(case, args, kw)

    def unchanged(when):
        if name == "ind2coord":
            w = args[0]
            ensure(set(w) == set(ref[0]) | {"xcoord", "ycoord"}, "ind2coord leaves fields %r of %r", list(w),
                   list(ref[0]))
            ensure(frozen({k: w[k] for k in ref[0]}) == before[1][0], "%s: %s changed the walk data", name, when)
            ensure(frozen(args[1:]) == ("list", before[1][1:]), "%s: %s changed an argument", name, when)
            return
        for k, (a, r) in enumerate(zip(args, before[1])):
            ensure(frozen(a) == r, "%s: %s changed argument %d to %r, it was %r", name, when, k, a, ref[k])
        ensure(frozen(kw) == beforekw, "%s: %s changed a keyword argument to %r, it was %r", name, when, kw, refkw)

    unchanged("the call")
    if case["other"]:     # something else in between
        c2 = dict(case, walk={f: v[::-1] for f, v in case["walk"].items()}, b=case["b"][::-1],
                  mask=[[1 - v for v in r] for r in case["mask"]])
        invoke(c2, *arguments(c2))
    again = invoke(case, args, kw)
    unchanged("repeating the call")
    ensure(again == first, "%s: repeating the call gives another result: %.300r, first %.300r", name, again, first)
    ensure(invoke(case, *arguments(case)) == first, "%s: the call on equal arguments gives another result", name)
    b = case["b"]
    if name != "ind2coord" and b[30] % 2:      # what is done with a result is nobody's business
        ensure(invoke(case, args, kw, True) == first, "%s: the result changes", name)
        if frozen(args)[1] == before[1] and frozen(kw) == beforekw:
            ensure(invoke(case, args, kw) == first, "%s: after the returned result has been overwritten, the same call gives another one", name)
            ctx.label("result overwritten")
    if b[31] % 2:     # other contents in the same objects
        c2 = dict(case, walk={f: v[::-1] for f, v in case["walk"].items()}, b=b[::-1],
                  mask=[[1 - v for v in r] for r in case["mask"]])
        want = invoke(c2, *arguments(c2))
        new, newkw = arguments(c2)
        args, kw = gen.pour(args, new), gen.pour(kw, newkw)
        got = invoke(c2, args, kw)
        ensure(got == want, "%s: arguments that had other contents before give %.300r, fresh equal ones %.300r", name, got, want)
        ctx.label("arguments changed in place")
    ctx.label(name)
    if len(case["walk"]) > 3:
        ctx.label("additional fields")
    ctx.nontrivial(len(case["walk"]["xinds"]) > 1 and any(len(h) > 2 for h in case["walk"]["xinds"]))


SUBS = [
    Sub("analysis", strategy(PURE), check, 2400, 40000, "calls of %s on generated arguments, repeated with and without "
        "another call in between; non-trivial if several particles and a history longer than 2" % ", ".join(PURE)),
    Sub("plotting", strategy(PLOTS), check, 240, 3000, "calls of %s, likewise; results are the saved files and the drawn "
        "artists" % ", ".join(PLOTS)),
]
