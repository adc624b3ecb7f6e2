"""C28 steady-flow routines return and save exactly the simulated walk."""
import json
import os
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots, ref, sim
from pbt.core import Sub, ensure, scratch

TECHNIQUE = ("property-based testing (Hypothesis): differential against direct iteration under the same random state, JSON "
             "round-trip, file inventory")


@st.composite
def cases(draw):
    c = draw(sim.scenarios(lo=6, hi=12, npmin=1, npmax=5, ops=False, tracked=True, roi=True, border=False,
                           water=draw(st.sampled_from(["wet", "any", "wet"])), sd=draw(st.sampled_from([False, False, True]))))
    c["n"] = draw(st.sampled_from([3, 2, 4, 1, 6]))
    c["routine"] = draw(st.sampled_from(["steady", "steady", "time", "nosave"]))
    c["folder"] = draw(st.sampled_from(["new", "nested", "cwd", "existing", "absolute", "again"]))
    c["before"] = draw(st.sampled_from([0, 0, 1, 3]))
    return c


def start(case):
    P = sim.seeded(case)
    np.random.seed(case["rng"])
    for _ in range(case["before"]):
        P.run_iteration()
    return P


def same_walk(a, b, what):
    ensure(set(a) == set(b), "%s: fields %r and %r", what, sorted(a), sorted(b))
    for f in b:
        ensure(len(a[f]) == len(b[f]), "%s: %s of %d particles, expected %d", what, f, len(a[f]), len(b[f]))
        for p in range(len(b[f])):
            ensure(len(a[f][p]) == len(b[f][p]) and all(ref.same(x, y) for x, y in zip(a[f][p], b[f][p])),
                   "%s: %s of particle %d is %r, expected %r", what, f, p, a[f][p], b[f][p])


def places(walk, k):
    return [[float(walk["yinds"][p][k]), float(walk["xinds"][p][k])] for p in range(len(walk["xinds"]))]


def check(case, ctx):
    import dorado.routines as rt
    n = case["n"]
    A = start(case)
    steps, times = [], []
    for _ in range(n):
        want = A.run_iteration()
        times.append([float(v[-1]) for v in want["travel_times"]])
        steps.append(places(want, -1))
    want = json.loads(json.dumps(want))
    B = start(case)
    save = case["routine"] != "nosave"
    fn = rt.time_plots if case["routine"] == "time" else rt.steady_plots
    with scratch() as d, plots.figures() as saved:
        folder = dict(new="out", nested=os.path.join("a", "b", "c"), cwd=None, existing="old", again="out",
                      absolute=os.path.join(d, "abs"))[case["folder"]]
        if case["folder"] == "existing":
            os.makedirs(os.path.join("old", "data"))
        if case["folder"] == "again":
            plots.earlier("out/data/data.txt", *["out/figs/output%d.png" % k for k in range(n)])
        before = plots.tree(d)
        kw = {} if folder is None else dict(folder_name=folder)
        if not save:
            kw["save_output"] = False
        got = fn(B, n, **kw)
        same_walk(got, want, "returned walk data and direct iteration")
        same_walk(B.walk_data, want, "walk data of the particles and direct iteration")
        if not save:
            ensure(plots.tree(d) == before and not saved, "saving is turned off and files %r were written",
                   plots.tree(d))
            ensure(sorted(os.listdir(d)) == (["old"] if case["folder"] == "existing" else
                                             ["out"] if case["folder"] == "again" else []),
                   "saving is turned off and a folder was made: %r", os.listdir(d))
        else:
            root = "" if folder is None else os.path.relpath(os.path.join(d, folder), d) + "/"
            exp = sorted([root + "figs/output%d.png" % i for i in range(n)] + [root + "data/data.txt"])
            ensure(plots.tree(d) == exp, "files %r, expected %r", plots.tree(d), exp)
            ensure(not plots.kept(d), "files of an earlier run stay as they were: %r", plots.kept(d))
            with open(os.path.join(d, root + "data/data.txt")) as f:
                back = json.load(f)
            same_walk(back, want, "saved walk data")
            ensure(len(saved) == n, "%d figures for %d iterations", len(saved), n)
            for i, (fig, path, s) in enumerate(saved):
                ensure(path.endswith("output%d.png" % i), "figure %d is saved as %s", i, path)
                ensure(steps[i] in s["markers"], "figure %d marks %r, the particles are at %r (column, row)", i,
                       s["markers"], steps[i])
                ensure(places(want, 0) in s["markers"], "figure %d marks %r, the particles started at %r", i,
                       s["markers"], places(want, 0))
                ensure(any(np.array_equal(im, B.depth) and plots.legible(im, sc) for im, sc in zip(s["images"], s["scales"])),
                       "figure %d does not show the depth", i)
                ensure(any(re.search(r"(?<!\d)%d$" % i, t) for t in s["titles"]), "figure %d has the titles %r", i, s["titles"])
                if case["routine"] == "time":
                    ensure(any(m == steps[i] and a == times[i] for m, a in zip(s["markers"], s["colours"])), "figure %d "
                           "colours the particles by %r, their travel times are %r", i, s["colours"], times[i])
    ctx.label(case["routine"])
    ctx.label("folder " + case["folder"])
    if case.get("vars") or case.get("roi"):
        ctx.label("additional fields")
    ctx.nontrivial(n > 1 and any(s != places(want, 0) for s in steps))


@st.composite
def real_cases(draw):
    c = draw(cases())
    c["routine"] = draw(st.sampled_from(["steady", "time"]))
    c["n"] = draw(st.integers(1, 2))
    return c


def check_real(case, ctx):
    """The figures are drawn for real and can be read back as images."""
    import dorado.routines as rt
    import matplotlib.image
    P = start(case)
    with scratch() as d, plots.figures(real=True):
        (rt.time_plots if case["routine"] == "time" else rt.steady_plots)(P, case["n"], folder_name="o")
        for i in range(case["n"]):
            img = matplotlib.image.imread(os.path.join(d, "o", "figs", "output%d.png" % i))
            ensure(img.ndim == 3 and min(img.shape[:2]) > 5 and img.std() > 0, "figure %d is empty", i)
    ctx.nontrivial()


SUBS = [
    Sub("routines", cases, check, 560, 8000,
        "1-6 iterations of both routines, with and without saving, into new, nested, existing, absolute and the current "
        "folder, with tracked variables, region flags and earlier history; non-trivial if there is more than one "
        "iteration and a particle moves"),
    Sub("drawn", real_cases, check_real, 16, 200, "figures rendered and read back; always non-trivial"),
]


@st.composite
def long_cases(draw):
    c = draw(sim.bulk_cases(ns=(5, 130, 30), max_ops=1, sd=False, tracked=True, dry=False))
    c["long"] = draw(st.sampled_from([60, 15, 105, 25]))
    c["routine"] = draw(st.sampled_from(["steady", "time", "nosave", "nosave"]))
    c["folder"] = "new"
    c["before"] = draw(st.sampled_from([0, 30]))
    return c


def check_long(case, ctx):
    d = sim.expand(case)
    check(dict(d, n=case["long"]), ctx)


SUBS.append(Sub("long", long_cases, check_long, 24, 300, "15 to 105 iterations and up to 130 particles on large rasters"))
