"""C25 state queries return the recorded entry that was asked for."""
import copy
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots, sim
from pbt.core import Sub, ensure
from pbt.ref import BASE, same

TECHNIQUE = "property-based testing (Hypothesis): reference slicing of generated ragged histories"
TIMES = [0.0, 1.0, 0.5, 2.0, -1.0, 3.25, 7.5, 10.0, 50.0, 1e6, 1e-3, 13.3]


@st.composite
def made(draw):
    c = draw(gen.walks(max_p=8, max_len=14))
    n = max(len(h) for h in c["walk"]["xinds"])
    w = c["walk"]
    if draw(st.integers(0, 4)) == 4:
        t0 = draw(st.sampled_from([-7.5, -65536.0, 500.0, 2.0 ** 24]))
        w["travel_times"] = [[t + t0 for t in h] for h in w["travel_times"]]
    if draw(st.integers(0, 4)) == 4:      # converted to coordinates
        w["xcoord"] = [[10.0 * y - 3.5 for y in h] for h in w["yinds"]]
        w["ycoord"] = [[500.25 - 10.0 * x for x in h] for h in w["xinds"]]
    # unique values, so that entries cannot be mistaken for each other
    if draw(st.booleans()):
        k = 0
        for f in c["walk"]:
            if f != "travel_times":
                for h in c["walk"][f]:
                    for i in range(len(h)):
                        h[i] = k
                        k += 1
    c["its"] = [-1, 0] + draw(st.lists(st.integers(-n - 3, n + 4), min_size=1, max_size=6))
    c["times"] = draw(st.lists(st.sampled_from(TIMES), min_size=1, max_size=4))
    allt = [t for h in c["walk"]["travel_times"] for t in h]
    for a, b, m in draw(st.lists(st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 4)),
                                 min_size=1, max_size=4)):
        a, b = allt[a % len(allt)], allt[b % len(allt)]
        c["times"].append([a, (a + b) / 2, a + 0.0625, a - 0.0625, a * 0.75 + b * 0.25][m])
    if draw(st.integers(0, 5)) == 5:      # a diffusion coefficient above 2 allows steps back in time
        for h in c["walk"]["travel_times"]:
            m = len(h) // 2
            h[m:m + 2] = h[m:m + 2][::-1]
    return c


def judge(walk, its, times, ctx):
    import dorado.routines as rt
    fields = BASE + [k for k in walk if k not in BASE]
    keep = copy.deepcopy(walk)
    npart = len(walk["xinds"])

    def unpack(res, what):
        if len(fields) > 3:
            ensure(len(res) == 4 and isinstance(res[3], dict) and set(res[3]) == set(fields[3:]),
                   "%s returns %d parts for walk data with %r", what, len(res), fields[3:])
            out = list(res[:3]) + [res[3][f] for f in fields[3:]]
        else:
            ensure(len(res) == 3, "%s returns %d parts for walk data without additional fields", what, len(res))
            out = list(res)
        for f, v in zip(fields, out):
            ensure(len(v) == npart, "%s: %d entries of %s for %d particles", what, len(v), f, npart)
        return out

    for it in its:
        for call, what in ((lambda: rt.get_state(walk, it), "get_state(%d)" % it),) + (
                ((lambda: rt.get_state(walk), "get_state()"),) if it == -1 else ()):
            with plots.logged() as msgs:
                out = unpack(call(), what)
            short = sum(not -len(h) <= it < len(h) for h in keep["xinds"])
            said = [int(x) for m in msgs for x in re.findall(r"-?\d+", m)]
            ensure(short == 0 and not msgs or short > 0 and sorted(said) == sorted([short, it]), "%s: %d of %d particles have no such "
                   "entry, reported: %r", what, short, npart, msgs)
            for p in range(npart):
                h = keep["xinds"][p]
                idx = it if -len(h) <= it < len(h) else -1
                for f, v in zip(fields, out):
                    ensure(same(v[p], keep[f][p][idx]), "%s: particle %d %s is %r, recorded %r", what, p, f, v[p],
                           keep[f][p][idx])
                if idx != it:
                    ctx.label("shorter history")
    for t in times:
        t = int(t) if t == int(t) and int(t) % 2 else t
        with plots.logged() as msgs:
            out = unpack(rt.get_time_state(walk, t), "get_time_state(%r)" % t)
        late = [p for p in range(npart) if keep["travel_times"][p][-1] < t]
        said = [int(x) for m in msgs for x in re.findall(r"-?\d+", m)]
        clear = all(max(h) < t or h[-1] >= t for h in keep["travel_times"])
        ensure(said == late or not clear, "get_time_state(%r): particles %r do not get that far, reported: %r", t, late, msgs)
        for p in range(npart):
            tt = keep["travel_times"][p]
            best = min(abs(v - t) for v in tt)
            ok = [k for k in range(len(tt)) if abs(tt[k] - t) == best]
            got = [v[p] for v in out]
            ensure(any(all(same(a, keep[f][p][k]) for a, f in zip(got, fields)) for k in ok),
                   "get_time_state(%r): particle %d gives %r; nearest entries are %r", t, p, dict(zip(fields, got)),
                   [[keep[f][p][k] for f in fields] for k in ok])
            if len({tt[k] for k in ok}) > 1:
                ctx.label("equally near times")
            elif 0 < ok[0] and ok[-1] < len(tt) - 1:
                ctx.label("nearest inside the history")
    ensure(walk == keep, "the walk data were modified")


def check_made(case, ctx):
    walk = case["walk"]
    judge(walk, case["its"], case["times"], ctx)
    ctx.label("with additional fields" if len(walk) > 3 else "without additional fields")
    ls = {len(h) for h in walk["xinds"]}
    ctx.nontrivial(len(ls) > 1 and max(ls) > 2)


@st.composite
def routed(draw):
    c = draw(sim.scenarios(hi=8, npmax=4, op_hi=3, max_steps=8, tracked=True, roi=True))
    c["its"] = [-1, 0] + draw(st.lists(st.integers(-8, 12), min_size=1, max_size=4))
    c["times"] = draw(st.lists(st.sampled_from(TIMES + [100.0, 1000.0, 333.3]), min_size=1, max_size=4))
    return c


def check_routed(case, ctx):
    P, w = sim.simulate({**case, "vars": case.get("vars")}) if case.get("roi") is None else sim_roi(case)
    judge(w, case["its"], case["times"], ctx)
    ctx.nontrivial(max(len(h) for h in w["xinds"]) > 2)


def sim_roi(case):
    P = sim.seeded(case)
    np.random.seed(case["rng"])
    w = P.walk_data
    for op in case["ops"]:
        w = sim.run_op(P, op)
    return P, w


@st.composite
def grown_cases(draw):
    d = draw(made())
    d["grow"] = list(draw(gen.blob(len(d["walk"]["xinds"]) + 2)))
    return d


def check_grown(case, ctx):
    import dorado.routines as rt

    def call(w):
        for it in case["its"]:
            rt.get_state(w, it)
        for t in case["times"]:
            rt.get_time_state(w, t)
    check_made(dict(case, walk=gen.grown(case["walk"], case["grow"], call)), ctx)


SUBS = [
    Sub("made", made, check_made, 8000, 150000,
        "hand-made ragged histories with and without additional fields and with distinct values per entry, indices "
        "beyond both ends, times equal to, half-way between and close to recorded ones; non-trivial if histories "
        "differ in length"),
    Sub("routed", routed, check_routed, 400, 8000,
        "walk data of generated simulations with tracked variables and region flags; non-trivial if some history is "
        "longer than 2"),
]
SUBS.append(Sub("grown", grown_cases, check_grown, 1000, 15000, "the same walk data objects after they have been analysed with "
                "shorter histories and in the opposite direction and then changed in place"))


@st.composite
def bulk_cases(draw):
    c = draw(gen.bulk_walks(total=6000))
    c["its"] = [-1, 0] + draw(st.lists(st.integers(-c["longest"] - 2, c["longest"] + 2), min_size=1, max_size=3))
    c["parts"] = draw(st.lists(st.floats(0, 1), min_size=1, max_size=3))
    return c


def check_bulk(case, ctx):
    d = gen.expand_walk(case)
    last = [h[-1] for h in d["walk"]["travel_times"]]
    times = [f * max(last) for f in case["parts"]] + [case["parts"][0] * min(last)]
    check_made(dict(d, times=times), ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 64, 1200, "large generated walk data (up to 3000 particles, histories of up to 2500 entries, rasters of up to 290x270 and 8x300), described by sizes and a seed; non-trivial as above"))
