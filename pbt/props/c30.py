"""C30 exposure-time curves show the true fraction of particles exited."""
import bisect
import copy
import json
import os
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots
from pbt.core import Sub, ensure, scratch

TECHNIQUE = "property-based testing (Hypothesis): the drawn curves and reported levels against a counting reference"
SHARES = [0.0, 0.25, 0.5, 0.0, 0.125, 0.75, 0.9, 0.985, 1.0, 0.995, 0.1, 0.5, 0.33, 0.6, 0.05, 0.8]


@st.composite
def cases(draw):
    c = draw(gen.walks(max_p=8, max_len=5, L=6, W=6))
    if draw(st.booleans()):   # many particles: repeat the histories
        k = draw(st.integers(2, 6))
        c["walk"] = {f: [list(h) for _ in range(k) for h in v] for f, v in c["walk"].items()}
    w = c["walk"]
    n = len(w["xinds"])
    bump = draw(st.sampled_from([1.0, 60.0, 1000.0]))
    for p in range(n):     # everybody has travelled for some time
        w["travel_times"][p][-1] += bump
    scale = draw(st.sampled_from([1.0, 2.0 ** -12, 2.0 ** 18, 1.0]))
    w["travel_times"] = [[t * scale for t in h] for h in w["travel_times"]]
    end = [h[-1] for h in w["travel_times"]]
    c["uniform"] = draw(st.booleans())
    T = max(end) if c["uniform"] else min(end)
    b = draw(gen.blob(2 * n))
    style = draw(st.sampled_from(["mixed", "fine", "inside"]))
    et = []
    for p in range(n):
        s = SHARES[b[2 * p] % 16]
        if style == "fine":
            s = b[2 * p] / 256.0 + b[2 * p + 1] / 65536.0
        elif style == "inside":
            s = 0.02 + (b[2 * p] % 16) / 18.0
        if abs(s - 0.99) < 1e-6:
            s = 0.98
        et.append(T * s)
    if not c["uniform"]:   # some may exceed the shortest history
        m = draw(gen.blob(n))
        et = [x if y % 6 else min(end[p], x + T) for p, (x, y) in enumerate(zip(et, m))]
    c["et"] = et
    c["unit"] = draw(st.sampled_from([1, 60, 3600, 86400, 10, 2.5]))
    c["nbins"] = draw(st.sampled_from([None, 10, 100, 2, 1000, 37]))
    c["save"] = draw(st.sampled_from([True, False]))
    c["show"] = draw(st.sampled_from([True, True, False]))
    c["fn"] = draw(st.sampled_from(["plain", "plain", "thresholds"]))
    c["folder"] = draw(st.sampled_from(["out", "a/b", None]))
    return c


UNITS = {1: "[s]", 60: "[m]", 3600: "[hr]", 86400: "[day]", 10: "[10 s]", 2.5: "[2.5 s]"}


def check(case, ctx):
    import dorado.routines as rt
    import matplotlib.pyplot as plt
    walk, et, u = case["walk"], case["et"], case["unit"]
    keep, et0 = copy.deepcopy(walk), list(et)
    n = len(et)
    end = [h[-1] for h in walk["travel_times"]]
    T = max(end) if case["uniform"] else min(end)
    times = sorted(x for x in et if x > 0 and x < 0.99 * T)
    F = lambda t: bisect.bisect_right(times, t)      # number of particles out by time t
    nb = case["nbins"] or 100
    kw = dict(timedelta=u, save_output=case["save"])
    if case["nbins"]:
        kw["nbins"] = case["nbins"]
    if case["uniform"]:
        kw["uniform_timesteps"] = True
    if case["folder"]:
        kw["folder_name"] = case["folder"]
    thr = case["fn"] == "thresholds"
    if not thr and case["show"]:
        kw["show_thresholds"] = True
    with scratch() as d, plots.figures() as saved, plots.logged() as msgs:
        root = case["folder"] + "/" if case["folder"] else ""
        if case["save"] and u in (60, 10):     # over the results of an earlier call
            plots.earlier(*([root + "figs/Smooth_CETD_thresholds.png"] if thr else [root + "data/exposure_times.txt"] + [
                root + "figs/%s.png" % f for f in ("ETD", "Exact_CETD", "Smooth_CETD")]))
        (rt.plot_exposure_time_thresholds if thr else rt.plot_exposure_time)(walk, et, **kw)
        files = plots.tree(d)
        ensure(not plots.kept(d), "files of an earlier call stay as they were: %r", plots.kept(d))
        if case["save"]:
            shots = [s[2] for s in saved]
            exp = ([root + "figs/Smooth_CETD_thresholds.png"] if thr else
                   [root + "data/exposure_times.txt"] + [root + "figs/%s.png" % f for f in
                                                         ("ETD", "Exact_CETD", "Smooth_CETD")])
            ensure(files == sorted(exp), "files %r, expected %r", files, exp)
            if not thr:
                with open(os.path.join(d, root, "data", "exposure_times.txt")) as f:
                    back = json.load(f)
                ensure(back == et0, "saved exposure times %r, given %r", back, et0)
        else:
            ensure(files == [] and os.listdir(d) == [], "saving is turned off and %r was written", os.listdir(d))
            shots = [plots.shown(plt.figure(k)) for k in plt.get_fignums()]
    ensure(walk == keep and et == et0, "the arguments were modified")
    curves = [c for s in shots for c in s["curves"] if c["ylabel"] == "F(t) [-]"]
    ensure(len(curves) == (1 if thr else 2), "%d cumulative curves", len(curves))
    exact = 0
    for c in curves:
        x, y = [v * u for v in c["x"]], c["y"]
        eps = 1e-9 * T
        ensure(c["xlabel"].endswith(UNITS[u]), "time axis %r for a unit of %r s", c["xlabel"], u)
        ensure(y[0] == 0 and abs(x[0]) <= eps, "the curve starts at (%r, %r)", x[0], y[0])
        ensure(abs(x[-1] - T) <= eps, "the curve ends at time %r, expected %r (uniform time steps: %r)", x[-1], T,
               case["uniform"])
        ensure(all(a <= b for a, b in zip(y, y[1:])) and all(a <= b for a, b in zip(x, x[1:])), "the curve decreases")
        if c["step"] == "steps-post":
            exact += 1
            pts = sorted({0.0, T, *times})
            for a, b in zip(pts, pts[1:]):
                t = (a + b) / 2
                if b - a < 1e-6 * T:
                    continue
                k = bisect.bisect_right(x, t) - 1
                ensure(abs(y[k] * n - F(t)) < 1e-6, "exact curve at %r s is %r, %d of %d particles have left (exposure "
                       "times %r, end %r)", t, y[k], F(t), n, et, T)
            ensure(abs(y[-1] * n - len(times)) < 1e-6, "the exact curve ends at %r, %d of %d particles have left", y[-1],
                   len(times), n)
        else:
            ensure(len(x) == nb, "%d points on the smooth curve, expected %d", len(x), nb)
            for k in range(nb):
                ensure(abs(x[k] - T * k / (nb - 1)) <= eps, "point %d of the smooth curve is at %r s", k, x[k])
                ensure(F(x[k] - eps) - 1e-6 <= y[k] * n <= F(x[k] + eps) + 1e-6, "smooth curve at %r s is %r, %d of %d "
                       "particles have left (exposure times %r, end %r)", x[k], y[k], F(x[k]), n, et, T)
    ensure(exact == (0 if thr else 1), "%d exact curves", exact)
    rates = [c for s in shots for c in s["curves"] if c["ylabel"].startswith("E(t)")]
    ensure(len(rates) == (0 if thr else 1), "%d distribution curves", len(rates))
    for c in curves + rates:
        ensure(plots.in_view(c), "a curve with times up to %r and values up to %r is drawn in axes %r", max(c["x"]), max(c["y"]),
               c["window"])
    for c in rates:     # the area under the distribution up to a time is the share of particles that have left
        x, y = c["x"], c["y"]
        ensure(c["ylabel"] == "E(t) " + UNITS[u][:-1] + "$^{-1}$]" and c["xlabel"].endswith(UNITS[u]), "axes %r, %r for a unit of "
               "%r s", c["xlabel"], c["ylabel"], u)
        ensure(len(x) == nb and all(abs(x[k] * u - T * k / (nb - 1)) <= 1e-9 * T for k in range(nb)), "the distribution is drawn "
               "at %r", x[:5])
        ensure(min(y) >= -1e-9 * max(map(abs, y)), "the distribution is negative (%r)", min(y))
        area = 0.0
        for k in range(1, nb):
            area += (y[k] + y[k - 1]) / 2 * (x[k] - x[k - 1]) * n
            lo, hi = F(x[k - 1] * u - 1e-9 * T), F(x[min(k + 1, nb - 1)] * u + 1e-9 * T) + 1
            ensure(lo - 1e-6 * n <= area <= hi + 1e-6 * n, "the area under the distribution up to %r s is %r particles, "
                   "%r to %r of %r leave around it", x[k] * u, area, lo, hi, n)
        ensure(abs(area - len(times)) < 1e-6 * n, "the area under the distribution is %r, %r of %r particles leave", area / n,
               len(times), n)
    # reported levels
    rep = {}
    for m in msgs:
        f = re.match(r"E(50|75|90): (.*)$", m)
        if f:
            ensure(f.group(1) not in rep, "E%s is reported twice", f.group(1))
            rep[f.group(1)] = f.group(2)
    if thr or case["show"]:
        for lev in (50, 75, 90):
            r = rep.get(str(lev))
            ensure(r is not None, "E%d is not reported (%r)", lev, msgs)
            need = -(-lev * n // 100)        # particles that must have left
            if need > len(times):
                ensure(r.startswith("not reached"), "E%d: %r, only %d of %d particles leave", lev, r, len(times), n)
                f = re.search(r"F=([\d.]+)", r)
                ensure(f is None or abs(float(f.group(1)) - len(times) / n) < 6e-4, "E%d: %r, the curve ends at %r", lev,
                       r, len(times) / n)
                ctx.label("level not reached")
                continue
            t = times[need - 1] / u
            f = re.match(r"([-+\d.e]+) (\[.*\])$", r)
            ensure(f is not None and f.group(2) == UNITS[u], "E%d is reported as %r", lev, r)
            v = float(f.group(1))
            if thr:
                bin_ = T / (nb - 1) / u
                e = 1e-9 * (1 + T / u)
                ensure(np.floor(t - e) <= v <= t + bin_ + e, "E%d: %r, the level is reached at %r (points %r apart)", lev,
                       r, t, bin_)
            else:
                ensure(abs(v - t) <= 0.0051 * t, "E%d: %r, the level is reached at %r", lev, r, t)
            ctx.label("level reached")
    else:
        ensure(not rep, "levels are reported without being asked for")
    ctx.label(case["fn"])
    ctx.label("saved" if case["save"] else "not saved")
    ctx.label("uniform" if case["uniform"] else "shortest history")
    if len(walk) > 3:
        ctx.label("additional fields")
    ctx.nontrivial(len(set(times)) > 1 and len(times) < n)


SUBS = [Sub("curves", cases, check, 400, 6000,
            "1-48 particles with exposure shares of 0 to 100 % of the end time including repeated values, levels met "
            "exactly and levels never reached, end time from the shortest or longest history, six time units, 2-100 "
            "points, saved and unsaved; non-trivial if some particles leave at different times and some do not")]


@st.composite
def bulk_cases(draw):
    c = draw(gen.bulk_walks(total=2500, shapes=((6, 6),), counts=(300, 1500, 101, 600)))
    c.update(uniform=draw(st.booleans()), unit=draw(st.sampled_from([1, 3600, 86400])), nbins=draw(st.sampled_from([None, 100, 400])),
             save=draw(st.booleans()), show=True, fn=draw(st.sampled_from(["plain", "thresholds"])), folder="out",
             far=draw(st.sampled_from([0.9, 1.3, 0.6])))
    return c


def check_bulk(case, ctx):
    d = gen.expand_walk(case)
    w = d["walk"]
    for h in w["travel_times"]:
        h[-1] += 1000.0
    end = [h[-1] for h in w["travel_times"]]
    T = max(end) if case["uniform"] else min(end)
    s = np.random.RandomState(case["bulk"] // 2).rand(case["n"]) * case["far"]
    s[np.abs(s - 0.99) < 1e-4] = 0.98
    check(dict(d, et=[float(v) for v in np.minimum(s * T, end)]), ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 32, 400, "101 to 1500 particles, up to 400 points; non-trivial as above"))
