"""C12 saving, reloading and resuming a simulation changes nothing."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure, scratch

TECHNIQUE = "property-based testing (Hypothesis): differential, interrupted/saved/resumed run against uninterrupted run"


@st.composite
def cases(draw):
    d = draw(gen.domains(lo=5, hi=11, roi=True, tracked=True))
    if draw(st.integers(0, 2)) == 0:
        d["vars"] = None
    if draw(st.integers(0, 3)) == 3:
        d["u"], d["v"] = d.pop("qx"), d.pop("qy")
    d["seeds"] = gen.seeds_for(d, draw(gen.byte_pairs(1, 5)), border=draw(st.integers(0, 3)) == 3)
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["step", "step", "target", "target", "add"]))
        if k == "step":
            ops.append(["step", draw(st.integers(1, 6))])
        elif k == "target":
            ops.append(["target", draw(st.sampled_from([1.0, 10.0, 100.0, 0.3, 500.0, 5000.0])),
                        draw(st.integers(1, 20))])
        else:
            pairs = draw(gen.byte_pairs(1, 3))
            ops.append(["add", draw(st.integers(1, 4)), gen.seeds_for(d, pairs),
                        draw(st.sampled_from(["exact", "random"])), draw(st.sampled_from([0, 0, 5.5]))])
    d["ops"] = ops
    d["t0"] = draw(st.sampled_from([0, 0, 0, 1000000.5, -6.5, 0]))
    d["coords"] = draw(st.integers(0, 5)) == 5
    d["breaks"] = [draw(st.integers(0, 7)) for _ in ops]   # 0: go on; 1-6: save after so many steps; 7: twice
    d["via"] = draw(st.sampled_from(["string", "file", "indent"]))
    d["rng"] = draw(gen.rng_seed)
    d["dtype"] = draw(st.sampled_from(["float64", "float64", "float32"]))
    return d


def through_json(w, via):
    if via == "file":
        with scratch() as dd:
            fn = os.path.join(dd, "walk.json")
            with open(fn, "w") as f:
                json.dump(w, f)
            with open(fn) as f:
                return json.load(f)
    return json.loads(json.dumps(w, indent=2 if via == "indent" else None))


def add(P, op, **kw):
    x, y = [s[0] for s in op[2]], [s[1] for s in op[2]]
    if op[1] % 2:
        x, y = np.array(x), np.array(y)
    P.generate_particles(op[1], x, y, method=op[3], seed_time=op[4], **kw)


def saved(P, case):
    w = P.walk_data
    try:
        r = through_json(w, case["via"])
    except TypeError as e:
        ensure(False, "the walk data cannot be written as JSON: %s", e)
    d = ref.diff_walk({k: w[k] for k in w}, r)
    ensure(d is None, "walk data differ after JSON: %s", d)
    return r


def resume(P, case):
    """A new object holding the saved data; draws nothing."""
    r = saved(P, case)
    if case.get("coords"):      # saved after the conversion of its indices to coordinates
        import dorado.particle_track as pt
        r = pt.ind2coord(r, (100.0, -50.5), (case["L"], case["W"]), case["dx"])
    state = np.random.get_state()
    Q = gen.make_particles(case, case["dtype"])
    np.random.set_state(state)
    if case["rng"] % 2:
        Q.generate_particles(0, [], [], previous_walk_data=r)
    else:
        Q.generate_particles(0, [1], [1], previous_walk_data=r, method="exact")
    return Q


def run(case, breaks):
    P = sim.seeded(case, case["dtype"])
    np.random.seed(case["rng"])
    w = None
    for op, b in zip(case["ops"], breaks):
        if op[0] == "add":
            if b:
                r = saved(P, case)
                state = np.random.get_state()
                P = gen.make_particles(case, case["dtype"])
                np.random.set_state(state)
                add(P, op, previous_walk_data=r)
            else:
                add(P, op)
            w = P.walk_data
        elif op[0] == "step":
            for k in range(op[1]):
                w = P.run_iteration()
                if b and k + 1 == min(b, op[1]):
                    P = resume(P, case)
                    w = P.walk_data
        else:
            if b == 7:
                P = resume(P, case)
            w = P.run_iteration(target_time=op[1], max_iter=op[2])
            if b:
                P = resume(P, case)
                w = P.walk_data
    return P, w


def check(case, ctx):
    P, w = run(case, [0] * len(case["ops"]))
    Q, v = run(case, case["breaks"])
    d = ref.diff_walk(w, v)
    ensure(d is None, "uninterrupted against resumed run: %s", d)
    d = ref.diff_walk(P.walk_data, Q.walk_data)
    ensure(d is None, "held walk data, uninterrupted against resumed run: %s", d)
    saved(P, case)
    for f in w:
        if f not in ref.BASE:
            ctx.label("tracked")
            break
    nb = sum(1 for b in case["breaks"] if b)
    ctx.label("breaks=%d" % min(nb, 4))
    ctx.label(case["dtype"])
    ctx.nontrivial(nb > 0 and max(len(x) for x in w["xinds"]) > 2)



def check_bulk(case, ctx):
    rs = np.random.RandomState(case["bulk_seed"])
    case["dtype"] = "float64"
    case["via"] = ["string", "file"][rs.randint(2)]
    if len(case["seeds"]) <= 150:
        case["ops"].insert(rs.randint(len(case["ops"]) + 1), ["add", int(rs.randint(1, 40)), case["seeds"][:7],
                                                             ["exact", "random"][rs.randint(2)], 0])
    case["breaks"] = [int(b) for b in rs.choice([0, 1, 3, 7, 60], len(case["ops"]))]
    check(case, ctx)


@st.composite
def splits(draw):
    d = draw(sim.bulk_cases(ns=(1,), tracked=True))
    d["ops"] = []
    d["L"], d["W"] = draw(st.sampled_from([[12, 20], [20, 9], [8, 40]]))
    d["dx"] = draw(st.sampled_from([1.0, 0.25, 3.0, 20.0]))
    k = draw(st.integers(1, 4))
    b = draw(gen.blob(2 * k + 1))
    d["target"] = [draw(st.integers(2, 25)), b[0]]     # close to the time of that step
    # where the run is interrupted: at a part of the target time, after some steps or at the step limit
    d["parts"] = [[("time", "steps", "limit", "time")[b[2 * i + 1] % 4], b[2 * i + 2], b[2 * i + 1] // 4 % 2] for i in range(k)]
    d["via"] = "string"
    d["dtype"] = "float64"
    d["rng"] = draw(gen.rng_seed)
    return d


def check_split(case, ctx):
    case = sim.expand(case)
    P = sim.seeded(case)
    np.random.seed(case["rng"])
    for _ in range(case["target"][0]):
        t = P.run_iteration()["travel_times"][0]
    T = t[-1] + (t[-1] - t[-2] if len(t) > 1 else 1) * (case["target"][1] / 128.0 - 1)
    P = sim.seeded(case)
    np.random.seed(case["rng"])
    full = P.run_iteration(target_time=T, max_iter=300)
    n = len(full["xinds"][0])
    P = sim.seeded(case)
    np.random.seed(case["rng"])
    R = ref.RefDomain(case)
    same, cuts = True, 0
    w = P.walk_data
    for kind, b, again in sorted(case["parts"], key=lambda q: q[1]):
        if len(w["xinds"][0]) > 280:
            break
        if kind == "time":
            w = P.run_iteration(target_time=T * b / 256.0, max_iter=300 - len(w["xinds"][0]))
        elif kind == "limit":
            w = P.run_iteration(target_time=T, max_iter=1 + b % 4)
        else:
            for _ in range(1 + b % 3):
                if len(w["xinds"][0]) < n:      # never beyond the uninterrupted run
                    w = P.run_iteration()
        t = w["travel_times"][0]
        m = len(t)
        cuts += m > 1 and m < n
        # a step of less than 0.1 s counts as 0.1 s unless it is the first of the call
        same = same and not (m > 1 and t[-1] - t[-2] < 0.1 and T - t[-1] <= 0.0501)
        # at a place where staying is possible, another call may decide differently
        i, j = w["xinds"][0][-1], w["yinds"][0][-1]
        same = same and (R.near_edge(i, j) or not R.border(i, j) and (lambda q: not q[2] and q[0][4] == 0)(R.weights(i, j)))
        if again:
            P = resume(P, case)
            w = P.walk_data
    if len(w["xinds"][0]) < 300:
        w = P.run_iteration(target_time=T, max_iter=301 - len(w["xinds"][0]))
    if not same or n > 300:
        ctx.label("undecided")
        return
    d = ref.diff_walk(full, w)
    ensure(d is None, "a run to %r in one piece (%d entries) against the same run in parts %r: %s", T, n, case["parts"], d)
    ctx.label("cuts=%d" % min(cuts, 4))
    ctx.nontrivial(cuts > 0 and n > 3)


SUBS = [Sub("resume", cases, check, 3500, 60000,
            "2-7 operations (steps, target times, later seeding), any subset of points at which the data are saved, "
            "read back and carried into a new object; non-trivial if there is an interruption and a particle took "
            "two steps"),
        Sub("split", splits, check_split, 2500, 40000,
            "one particle led to a target time at once and in up to five parts (earlier targets, single steps, step limits), saved "
            "and reloaded at some of the cuts; non-trivial if it is interrupted under way"),
        sim.bulk(check_bulk, tracked=True, max_ops=4)]
