"""C29 unsteady routing uses each flow snapshot for its own time interval."""
import json
import os
import re
import random

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots
from pbt.core import Sub, ensure, refused, scratch
from pbt.props.c28 import places, same_walk

TECHNIQUE = ("property-based testing (Hypothesis): differential against routing snapshot by snapshot, and across file "
             "formats, under the same random state")


@st.composite
def cases(draw, many=None):
    sizes = [10, 12, 8, 14, 18, 22, 20, 16]
    L, W = draw(st.sampled_from(sizes)), draw(st.sampled_from(sizes))
    nf = draw(st.sampled_from([2, 3, 1, 4, 3])) if many is None else draw(st.sampled_from(list(many)))
    snaps = []
    for k in range(nf):     # described by a few numbers; fields() makes the rasters
        snaps.append(dict(z=draw(gen.rng_seed), mixed=draw(st.integers(0, 3)) == 3,
                          flow=draw(st.sampled_from([[1.0, 0.0], [0.0, 1.0], [-1.0, 0.5], [0.0, -2.0], [0.25, 0.25]])),
                          still=draw(st.integers(0, 3)) == 3,      # the surface decides
                          base=draw(st.sampled_from([[0.0, 1.0], [2048.0, 2.0 ** -18], [-100.0, 1.0 / 3]])),
                          third=draw(st.booleans())))             # not representable in few digits
    c = dict(L=L, W=W, snaps=snaps, dx=draw(st.sampled_from([50.0, 1.0, 0.5, 600.0, 10.0])),
             step=draw(st.sampled_from([2.0, 1.0, 3.0, 0.5, 8.0, 4.0, 2.0])), np=draw(st.sampled_from([3, 5, 1, 2, 15, 6, 4])), rng=draw(gen.rng_seed))
    c["step"] *= c["dx"]
    if c["step"] == int(c["step"]) and draw(st.booleans()):
        c["step"] = int(c["step"])
    c["asarray"] = draw(st.booleans())
    c["seeds"] = [[3 + x % (L - 6), 3 + y % (W - 6)] for x, y in draw(gen.byte_pairs(1, 4))]
    where = draw(st.integers(0, 7))
    if where == 7:
        c["seeds"] = gen.seeds_for(c, draw(gen.byte_pairs(1, 4)))
    elif where < 4:
        c["seeds"] = [[L // 2 + x % 3 - 1, W // 2 + y % 3 - 1] for x, y in draw(gen.byte_pairs(1, 4))]
    c["ask"] = draw(st.sampled_from([nf, nf + 1, 1, max(1, nf - 1), nf + 2, nf, nf]))
    c["order"] = draw(st.permutations(list(range(nf))))
    # the order of the files is that of their names
    c["names"] = draw(st.sampled_from(["%03d", "_%02d"] + (["_t%d"] if nf < 10 else []) + ["-2020-01-%02d"]))
    c["types"] = draw(st.permutations(["csv", "npy", "npz"]))
    c["folder"] = draw(st.sampled_from(["out", "a/b", None]))
    c["extra"] = draw(st.booleans())
    return c


def fields(case, s):
    """The four rasters of a snapshot."""
    L, W = case["L"], case["W"]
    rand = random.Random(s["z"])
    z = bytes(rand.randrange(256) for _ in range(4 * L * W))
    n = L * W
    dep = gen.grid(z[:n], gen.DEPTH_MIX if s["mixed"] else gen.DEPTH_WET, L, W)
    qx, qy = gen.grid(z[n:2 * n], gen.FLUX, L, W), gen.grid(z[2 * n:3 * n], gen.FLUX, L, W)
    ux, uy = s["flow"]
    qx = [[0.0 if s["still"] else ux + v / 8 for v in row] for row in qx]
    qy = [[0.0 if s["still"] else uy + v / 8 for v in row] for row in qy]
    base, small = s["base"]
    stg = [[base + small * ((L - i) * 0.125 + z[3 * n + i * W + j] / 512.0) for j in range(W)] for i in range(L)]
    if s["third"]:
        dep = [[v / 3 for v in row] for row in dep]
        qx = [[v / 3 for v in row] for row in qx]
    return dict(depth=dep, stage=stg, qx=qx, qy=qy)


def write(case, typ, d):
    os.makedirs(d)
    for k in case["order"]:
        s = {f: np.array(g, dtype=float) for f, g in fields(case, case["snaps"][k]).items()}
        tag = case["names"] % (k + 1)
        if typ == "npz":
            np.savez(os.path.join(d, "data%s.npz" % tag), **s)
        else:
            for f, g in s.items():
                fn = os.path.join(d, "%s%s.%s" % (f, tag, typ))
                if typ == "csv":
                    np.savetxt(fn, g, delimiter=",")
                else:
                    np.save(fn, g)
    if case["extra"]:
        names = ["readme.txt", "bed000.npy", "x_depth000.npy", "notes_data.npz"]
        for f in ("depth", "stage", "qx", "qy", "data"):
            names += ["a_%s000.%s" % (f, typ), "z-%s%s.%s" % (f, case["names"] % 1, typ), "old%s.%s" % (f, typ)]
        for n in names:
            with open(os.path.join(d, n), "w") as f:
                f.write("not a snapshot")


def manual(case, steps):
    import dorado.particle_track as pt
    np.random.seed(case["rng"])
    walk = None
    seen = []
    for k in range(steps):
        p = pt.modelParams()
        p.verbose = False
        p.dx = case["dx"]
        for f, g in fields(case, case["snaps"][k]).items():
            setattr(p, f, np.array(g, dtype=float))
        P = pt.Particles(p)
        if k == 0:
            P.generate_particles(case["np"], [s[0] for s in case["seeds"]], [s[1] for s in case["seeds"]])
        else:
            P.generate_particles(0, [], [], previous_walk_data=walk)
        walk = P.run_iteration(target_time=case["step"] * (k + 1))
        seen.append((places(walk, -1), P.depth.copy()))
    return json.loads(json.dumps(walk)), seen


def number(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def check(case, ctx):
    import dorado.routines as rt
    nf = len(case["snaps"])
    steps = min(nf, case["ask"])
    want, seen = manual(case, steps)
    first = places(want, 0)
    lists = np.array if case.get("asarray") else list
    args = (case["dx"], case["np"], lists([s[0] for s in case["seeds"]]), lists([s[1] for s in case["seeds"]]), case["ask"],
            case["step"])
    with scratch() as d:
        for typ in case["types"][:2 if case["rng"] % 3 == 0 else 1]:
            src = os.path.join(d, "in-" + typ)
            write(case, typ, src)
            files = plots.tree(src)
            work = os.path.join(d, "work-" + typ)
            os.makedirs(work)
            os.chdir(work)
            root = "" if case["folder"] is None else case["folder"] + "/"
            if case["rng"] % 5 < 2:
                plots.earlier(root + "data/data.txt", *[root + "figs/output%d.png" % k for k in range(steps)])
            with plots.figures() as saved:
                np.random.seed(case["rng"])
                got = rt.unsteady_plots(*args, src, typ, **({} if case["folder"] is None else
                                                            dict(folder_name=case["folder"])))
                shots = list(saved)
            what = "%s snapshots, %d of %d" % (typ, steps, nf)
            same_walk(got, want, what + ": routine and routing snapshot by snapshot")
            exp = sorted([root + "figs/output%d.png" % i for i in range(steps)] + [root + "data/data.txt"])
            ensure(plots.tree(work) == exp, "%s: files %r, expected %r", what, plots.tree(work), exp)
            ensure(not plots.kept(work), "%s: files of an earlier run stay as they were: %r", what, plots.kept(work))
            ensure(plots.tree(src) == files, "%s: the input folder was changed", what)
            with open(os.path.join(work, root + "data/data.txt")) as f:
                same_walk(json.load(f), want, what + ": saved walk data")
            ensure(len(shots) == steps, "%s: %d figures", what, len(shots))
            for i, (fig, path, s) in enumerate(shots):
                ensure(path.endswith("output%d.png" % i), "%s: figure %d is saved as %s", what, i, path)
                ensure(seen[i][0] in s["markers"], "%s: figure %d marks %r, the particles are at %r", what, i,
                       s["markers"], seen[i][0])
                ensure(any(np.array_equal(im, seen[i][1]) and plots.legible(im, sc) for im, sc in zip(s["images"], s["scales"])), "%s: figure %d does not show the depth "
                       "of snapshot %d", what, i, i)
                ensure(first in s["markers"], "%s: figure %d marks %r, the particles started at %r", what, i, s["markers"], first)
                stamp = [float(x) for t in s["titles"] for x in re.findall(r"[-+.\w]+$", t) if number(x)]
                ensure(any(abs(x - case["step"] * (i + 1)) <= 1e-6 * abs(x) for x in stamp), "%s: figure %d of time %r has the "
                       "titles %r", what, i, case["step"] * (i + 1), s["titles"])
            ctx.label(typ)
        if case["rng"] % 4 == 0:
            with plots.figures():
                os.chdir(d)
                src = os.path.join(d, "in-" + case["types"][0])
                refused(lambda: rt.unsteady_plots(*args, src, ["nc", "txt", "NPY", "", "tif"][case["rng"] // 4 % 5],
                                                  folder_name="bad"), (ValueError,), "unsupported format")
                ctx.label("unsupported format")
        os.chdir(d)
    if case["ask"] > nf:
        ctx.label("more steps than snapshots")
    if case["ask"] < nf:
        ctx.label("fewer steps than snapshots")
    ctx.nontrivial(steps > 1 and len({str(s[0]) for s in seen}) > 1)


SUBS = [Sub("snapshots", cases, check, 320, 5000,
            "1-4 snapshots of varying depth, surface and discharge written in shuffled order under several naming schemes, "
            "a third of the cases in two formats, asked for fewer, as many or more steps than there are; non-trivial if "
            "the particles move in more than one interval")]


SUBS.append(Sub("long", lambda: cases(many=(11, 12, 26, 14)), check, 20, 300, "the same with 11 to 26 snapshots"))
