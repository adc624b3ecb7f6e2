"""C09 histories only grow and stay aligned under any sequence of operations."""
import json

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure, fail, refused


@st.composite
def prev_walks(draw, L, W):
    n = draw(st.integers(0, 3))
    fields = draw(st.lists(st.sampled_from(["depth", "stage", "qx", "u", "roi_flag", "xcoord"]), unique=True,
                           max_size=3))
    w = dict(xinds=[], yinds=[], travel_times=[], **{f: [] for f in fields})
    for _ in range(n):
        m = draw(st.sampled_from([1, 2, 3, 4, 40, 2]))
        t0 = draw(st.sampled_from([0.0, 0.0, 2500000.5, -4.0, 0.0]))
        b = draw(gen.blob(2))
        x, y = 1 + b[0] % (L - 2), 1 + b[1] % (W - 2)
        xs, ys = [], []
        for k in range(m):     # a little walk to and fro
            xs.append(x if k % 2 == 0 else max(x - 1, 0))
            ys.append(y)
        w["xinds"].append(xs)
        w["yinds"].append(ys)
        w["travel_times"].append([t0 + k for k in range(m)])
        for f in fields:
            w[f].append([100.0 + k for k in range(m)])
    return w


@st.composite
def cases(draw):
    d = draw(gen.domains(hi=9, roi=True, tracked=True))
    L, W = d["L"], d["W"]
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["gen", "step", "target", "gen", "prev", "step", "clear", "json", "handset",
                                  "assign", "badgen"]))
        if k == "gen":
            pairs = draw(gen.byte_pairs(1, 4))
            ops.append(["gen", draw(st.integers(0, 5)), gen.seeds_for(d, pairs),
                        draw(st.sampled_from(["exact", "random"])), draw(st.sampled_from([0, 0, 3.5, 1000000.25, -6, 10]))])
        elif k == "prev":
            pairs = draw(gen.byte_pairs(1, 3))
            ops.append(["prev", draw(st.integers(0, 2)), gen.seeds_for(d, pairs), draw(prev_walks(L, W))])
        elif k == "step":
            ops.append(["step", draw(st.integers(1, 5))])
        elif k == "target":
            ops.append(["target", draw(st.sampled_from([5.0, 100.0, 0.5, 1000.0, 0.0])), draw(st.integers(1, 15))])
        elif k == "handset":
            ops.append(["handset", draw(prev_walks(L, W))])
        elif k == "assign":
            ops.append(["assign", draw(prev_walks(L, W))])
            pairs = draw(gen.byte_pairs(1, 3))
            ops.append(draw(st.sampled_from([["step", 2], ["target", 20.0, 5],
                                             ["gen", 2, gen.seeds_for(d, pairs), "exact", 0]])))
        else:
            ops.append([k])
    d["ops"] = ops
    d["rng"] = draw(gen.rng_seed)
    return d


def check(case, ctx):
    P = gen.make_particles(case)
    np.random.seed(case["rng"])
    tracked = list(case.get("vars") or [])
    if case.get("roi") is not None and "roi_flag" not in tracked:
        tracked.append("roi_flag")
    model = None        # None: no particles; else list of dict(field -> entries)
    kinds = set()
    grown = 0

    def look(w, what, full=True):
        ref.check_walk(w, tracked if full else [], None, what)
        return ref.snap({k: w[k] for k in ref.BASE + [f for f in tracked if f in w]})

    def grew(w, what, most=None):
        nonlocal grown
        s = look(w, what)
        n = len(model)
        ensure(len(s["xinds"]) == n, "%s: %d particles, there were %d", what, len(s["xinds"]), n)
        for p in range(n):
            m = len(model[p]["xinds"])
            for f in ref.BASE + tracked:
                old = model[p].get(f)
                if old is None:        # this variable was not known so far
                    old = [None] * m
                new = s[f][p]
                ensure(len(new) >= len(old) and all(ref.same(a, b) for a, b in zip(old, new)),
                       "%s: %r of particle %d was %r, now %r", what, f, p, old, new[:len(old) + 2])
                if most is not None:
                    ensure(len(new) - len(old) <= most, "%s: particle %d got %d entries", what, p,
                           len(new) - len(old))
                model[p][f] = new
            grown += len(s["xinds"][p]) > 1

    for op in case["ops"]:
        kind = op[0]
        kinds.add(kind)
        if kind in ("gen", "prev"):
            n = op[1]
            xs, ys = [s[0] for s in op[2]], [s[1] for s in op[2]]
            loaded = []
            kw = {}
            if kind == "prev":
                prev = op[3]
                kw["previous_walk_data"] = json.loads(json.dumps(prev))
                loaded = [{f: prev[f][p] for f in prev} for p in range(len(prev["xinds"]))]
                P.generate_particles(n, xs, ys, method="exact", **kw)
                t0 = 0
            else:
                t0 = op[4]
                P.generate_particles(n, xs, ys, method=op[3], seed_time=t0)
            s = look(P.walk_data, "after seeding")
            old = loaded + (model or [])
            ensure(len(s["xinds"]) == len(old) + n, "seeding %d particles on top of %d loaded and %d existing "
                   "gives %d", n, len(loaded), len(model or []), len(s["xinds"]))
            for p, h in enumerate(old):
                for f in ref.BASE + tracked:
                    want = h.get(f) or [None] * len(h["xinds"])
                    ensure(len(want) == len(s[f][p]) and all(ref.same(a, b) for a, b in zip(want, s[f][p])),
                           "seeding changed %r of particle %d from %r to %r", f, p, want, s[f][p])
            for p in range(len(old), len(old) + n):
                ensure(len(s["xinds"][p]) == 1 and s["xinds"][p][0] in xs and s["yinds"][p][0] in ys
                       and s["travel_times"][p] == [t0],
                       "new particle %d starts as %r", p, {f: s[f][p] for f in s})
            model = [{f: s[f][p] for f in s} for p in range(len(s["xinds"]))]
        elif kind == "badgen":
            refused(lambda: P.generate_particles("x", [1], [1]), (TypeError,), "seeding 'x' particles")
            refused(lambda: P.generate_particles(1, [1], [1], method="nearest"), (ValueError,),
                    "seeding with an unknown method")
            if model is not None:
                grew(P.walk_data, "after a refused seeding", 0)
        elif kind == "handset":
            # the documented way to continue from loaded data without seeding
            P.clear_walk_data()
            prev = op[1]
            if not prev["xinds"]:
                model = None
                continue
            loaded = json.loads(json.dumps(prev))
            P.generate_particles(0, [], [], previous_walk_data=loaded)
            s = look(P.walk_data, "after loading")
            ensure(len(s["xinds"]) == len(prev["xinds"]), "loading %d particles gives %d", len(prev["xinds"]),
                   len(s["xinds"]))
            model = []
            for p in range(len(prev["xinds"])):
                h = {}
                for f in ref.BASE + tracked:
                    h[f] = prev[f][p] if f in prev else [None] * len(prev["xinds"][p])
                model.append(h)
            grew(P.walk_data, "after loading", 0)
        elif kind == "assign":
            # a new object whose walk data are set directly (tracked variables appear with the next operation)
            prev = json.loads(json.dumps(op[1]))
            P = gen.make_particles(case)
            model = None
            if prev["xinds"]:
                P.walk_data = prev
                model = [{f: list(prev[f][p]) for f in prev if f in ref.BASE + tracked} for p in range(len(prev["xinds"]))]
        elif kind == "clear":
            held, was = P.walk_data, model
            P.clear_walk_data()
            if was is not None:      # the data handed out before are the user's
                model = was
                grew(held, "walk data obtained before clearing", 0)
                kinds.add("clear after data")
            model = None
            ensure(not P.walk_data, "walk data after clearing: %r", P.walk_data)
        elif kind == "json":
            if model is not None:
                w = json.loads(json.dumps(P.walk_data))
                d = ref.diff_walk({f: w[f] for f in s_fields(w, tracked)},
                                  {f: [h[f] for h in model] for f in s_fields(w, tracked)})
                ensure(d is None, "walk data differ after JSON: %s", d)
        else:
            if model is None:
                for f in (lambda: P.run_iteration(), lambda: P.run_iteration(target_time=5.0)):
                    refused(f, (ValueError,), "routing without particles")
                kinds.add("refused")
                continue
            if kind == "step":
                for _ in range(op[1]):
                    w = P.run_iteration()
                    if model or w["xinds"]:
                        grew(w, "step", 1)
                    grew(P.walk_data, "walk data held after a step", 0)
            else:
                w = P.run_iteration(target_time=op[1], max_iter=op[2])
                grew(w, "target-time run", op[2])
                grew(P.walk_data, "walk data held after a target-time run", 0)
    for k in kinds:
        ctx.label(k)
    if tracked:
        ctx.label("tracked variables")
    ctx.nontrivial(grown > 0 and len(kinds) >= 2)


def s_fields(w, tracked):
    return [f for f in ref.BASE + tracked if f in w]


SUBS = [Sub("sequences", cases, check, 6000, 100000,
            "up to 12 operations (seed, refused seed, step, target time, clear, reload earlier data with or "
            "without tracked variables, JSON) on a random domain, compared with a model after each; "
            "non-trivial if two kinds of operations occurred and some particle moved")]


@st.composite
def bulk_cases(draw):
    c = draw(sim.bulk_cases(tracked=True, max_ops=4, budget=3000))
    c["more"] = [[draw(st.sampled_from(["gen", "json", "gen", "clear", "prev", "badgen"])), draw(st.sampled_from([3, 200, 40, 700]))]
                 for _ in range(draw(st.integers(1, 3)))]
    c["places"] = [draw(st.integers(0, 9)) for _ in c["more"]]
    return c


def check_bulk(case, ctx):
    d = sim.expand({k: v for k, v in case.items() if k not in ("more", "places")})
    ops = [["gen", len(d["seeds"]), d["seeds"], "exact", 0]] + d["ops"]
    for (kind, n), at in zip(case["more"], case["places"]):
        at = 1 + at % len(ops)
        if kind == "gen":
            ops.insert(at, ["gen", n, d["seeds"][:50], "random", 3.5])
        elif kind == "prev":
            x, y = d["seeds"][0]
            ops.insert(at, ["prev", 2, d["seeds"][:2], dict(xinds=[[x] * 2] * n, yinds=[[y, y - 1]] * n,
                                                            travel_times=[[0.0, 1.5]] * n)])
        else:
            ops.insert(at, [kind])
    most = len(d["seeds"]) + sum(n for kind, n in case["more"])
    d["ops"] = [["step", min(o[1], max(2, 1500 // most))] if o[0] == "step" else o for o in ops]
    check(d, ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 48, 800, "the same with hundreds of particles on large rasters, described by sizes and a "
                "seed; non-trivial as above"))
