"""C18 simulations are reproducible from the random seed."""
import random

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure
from pbt.props import c32
from pbt.plots import figures

TECHNIQUE = "property-based testing (Hypothesis): metamorphic, the same seeded history twice, with and without queries in between"

QUERIES = ["state", "time_state", "exposure", "area", "time", "coord", "build", "grid", "systemwide", "localized",
           "thresholds", "plot_state", "logging", "flux"]


@st.composite
def cases(draw):
    d = draw(gen.domains(lo=6, hi=12, roi=True, tracked=True, water=draw(st.sampled_from(["wet", "wet", "any"]))))
    d["sd"] = d["sd"] and draw(st.booleans())
    ops = [["gen", draw(st.integers(1, 5)), gen.seeds_for(d, draw(gen.byte_pairs(1, 4)), border=False),
            draw(st.sampled_from(["random", "exact"]))]]
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["step", "step", "target", "gen", "rebuild"]))
        if k == "step":
            ops.append(["step", draw(st.integers(1, 6))])
        elif k == "target":
            ops.append(["target", draw(st.sampled_from([1.0, 10.0, 100.0, 1000.0])), draw(st.integers(1, 15))])
        elif k == "gen":
            ops.append(["gen", draw(st.integers(0, 4)), gen.seeds_for(d, draw(gen.byte_pairs(1, 4)), border=False),
                        draw(st.sampled_from(["random", "random", "exact"]))])
        else:
            ops.append(["rebuild"])
    d["ops"] = ops
    d["queries"] = [[draw(st.integers(0, len(ops) - 1)), draw(st.sampled_from(QUERIES))]
                    for _ in range(draw(st.integers(0, 4)))]
    d["rng"] = draw(gen.rng_seed)
    d["par"] = draw(st.integers(0, 39)) == 39
    return d


def query(name, P, case):
    import dorado
    import dorado.particle_track as pt
    import dorado.routines as rt
    import dorado.spatial as sp
    w = P.walk_data
    L, W = case["L"], case["W"]
    if name == "state":
        rt.get_state(w)
        rt.get_state(w, 2)
    elif name == "time_state":
        rt.get_time_state(w, 3.0)
    elif name == "exposure":
        pt.exposure_time(w, np.ones((L, W), int))
    elif name == "area":
        pt.nourishment_area(w, (L, W))
    elif name == "time":
        pt.nourishment_time(w, (L, W))
    elif name == "coord":
        pt.ind2coord(ref.snap(w), (0.0, 0.0), (L, W), 2.0)
        pt.coord2ind([(1.0, 2.0)], (0.0, 0.0), (L, W), 1.0)
    elif name == "build":
        Q = gen.make_particles(case)
        Q.generate_particles(2, [1], [1], method="exact")
    elif name == "grid":
        for k in (1, 3):
            pt.unstruct2grid([(0.0, 0.0), (4.0, 0.0), (0.0, 3.0), (2.0, 2.0)], [1.0, 2.0, 3.0, 4.0], 1.0,
                             k_nearest_neighbors=k)
    elif name in ("systemwide", "localized"):
        getattr(sp, name)(w, np.zeros((L, W)), np.ones((L, W), int), 2)
    elif name == "thresholds":
        ex = [[float(3 * k + q) for k in range(6)] for q in range((L // 2) * (W // 2))]
        sp.compute_thresholds(ex, np.zeros((L, W)), 1.0, 2)
    elif name == "plot_state":
        with figures():
            rt.plot_state(np.array(case["depth"]), w)
            rt.plot_state(np.array(case["depth"]), w, target_time=2.0)
    elif name == "logging":
        dorado.setup_logging("CRITICAL")
    elif name == "flux":
        pt.flux_proportional_seeding(np.array([1.0, 2.0, 3.5]), 7, 3)


def run(case, junk, queries):
    random.seed(junk)
    P = gen.make_particles(case)
    np.random.seed(case["rng"])
    for k, op in enumerate(case["ops"]):
        if op[0] == "gen":
            P.generate_particles(op[1], [s[0] for s in op[2]], [s[1] for s in op[2]], method=op[3])
        elif op[0] == "rebuild":
            w = P.walk_data
            P = gen.make_particles(case)
            P.generate_particles(0, [], [], previous_walk_data=w)
        else:
            sim.run_op(P, op)
        for at, name in queries:
            if at == k:
                before = np.random.get_state()
                query(name, P, case)
                after = np.random.get_state()
                ensure(before[2] == after[2] and np.array_equal(before[1], after[1]),
                       "%s draws from the random generator", name)
    return ref.snap(P.walk_data), np.random.uniform()


def check(case, ctx):
    a, ra = run(case, 1, [])
    b, rb = run(case, 987654321, case["queries"])
    d = ref.diff_walk(a, b)
    ensure(d is None, "two runs from seed %d (the second with the queries %r): %s", case["rng"], case["queries"], d)
    ensure(ra == rb, "the random generator is in another state after the second run (queries %r)", case["queries"])
    for _, q in case["queries"]:
        ctx.label("query " + q)
    if case["par"]:
        from dorado.parallel_routing import parallel_routing
        out = []
        for junk in (5, 6):
            random.seed(junk)
            np.random.seed(case["rng"])
            op = case["ops"][0]
            out.append(parallel_routing(gen.make_particles(case), 4, 3, [s[0] for s in op[2]],
                                        [s[1] for s in op[2]], 2))
        d = ref.diff_walk(*out)
        ensure(d is None, "two parallel runs from seed %d: %s", case["rng"], d)
        ctx.label("parallel")
    ctx.nontrivial(not case["sd"] and max(len(x) for x in a["xinds"]) > 2)


@st.composite
def bulk(draw):
    """Many particles, seeded and moved at once."""
    d = draw(gen.domains(lo=5, hi=14, roi=True, tracked=True))
    d["n"] = [draw(st.sampled_from([1000, 300, 64, 150, 2500])), draw(st.sampled_from([0, 500, 1]))]
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(1, 60)), border=False)
    d["steps"] = draw(st.sampled_from([2, 0, 1, 5]))
    d["target"] = draw(st.sampled_from([None, 20.0]))
    d["rng"] = draw(gen.rng_seed)
    return d


def check_bulk(case, ctx):
    out = []
    for junk in (3, 4):
        random.seed(junk)
        np.random.seed(case["rng"])
        P = gen.make_particles(case)
        for n in case["n"]:
            if n:
                P.generate_particles(n, [s[0] for s in case["seeds"]], [s[1] for s in case["seeds"]])
        for _ in range(case["steps"]):
            P.run_iteration()
        if case["target"] is not None:
            P.run_iteration(target_time=case["target"], max_iter=5)
        out.append((ref.snap(P.walk_data), np.random.uniform()))
    d = ref.diff_walk(out[0][0], out[1][0])
    ensure(d is None, "two runs with %r particles from seed %d: %s", case["n"], case["rng"], d)
    ensure(out[0][1] == out[1][1], "the random generator is in another state after the second run")
    ctx.nontrivial(len({tuple(s) for s in case["seeds"]}) > 1)


SUBS = [Sub("twice", cases, check, 3000, 50000,
            "seeding (mostly random), steps, target times, rebuilds; run twice from one NumPy seed with different states "
            "of Python's random module, the second time with queries, builds and plots in between; sometimes parallel "
            "runs; non-trivial for random walks with at least two steps")]
SUBS.append(Sub("bulk", bulk, check_bulk, 96, 1500, "64 to 2500 particles at once, twice from one seed; non-trivial if several seed cells"))


STILL = [f for f in c32.PLOTS if f != "draw_travel_path"]     # that one draws its line colours at random


def check_quiet(case, ctx):
    """Analysis and plotting neither draw random numbers nor depend on the generators' states."""
    out = []
    for seed in (11, 4242):
        random.seed(seed)
        np.random.seed(seed)
        args, kw = c32.arguments(case)
        before = np.random.get_state()
        out.append(c32.invoke(case, args, kw))
        after = np.random.get_state()
        ensure(before[2:] == after[2:] and np.array_equal(before[1], after[1]), "%s draws from the random generator", case["fn"])
    ensure(out[0] == out[1], "%s depends on the state of a random generator", case["fn"])
    ctx.label(case["fn"])
    ctx.nontrivial(len(case["walk"]["xinds"]) > 1 and any(len(h) > 2 for h in case["walk"]["xinds"]))


SUBS += [Sub("analysis", c32.strategy(c32.PURE), check_quiet, 800, 12000, "calls of %s under two states of NumPy's and Python's "
             "generators; non-trivial if several particles and a history longer than 2" % ", ".join(c32.PURE)),
         Sub("plots", c32.strategy(STILL), check_quiet, 200, 2000, "likewise calls of %s" % ", ".join(STILL))]
