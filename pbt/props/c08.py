"""C08 stopping rule of target-time runs."""
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sim
from pbt.core import Sub, ensure


@st.composite
def cases(draw, **kw):
    d = draw(sim.scenarios(ops=False, npmax=8, **kw))
    d["verbose"] = draw(st.booleans())
    d["t0"] = draw(st.sampled_from([0, 0, 7.5, 1000000.25, 87654321.5, 999990.0, 100]))
    ops = []
    scale = d["dx"]
    t = float(d["t0"])
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        if k == 0:
            ops.append(["step", draw(st.integers(1, 4))])
            continue
        t = t + scale * draw(st.sampled_from([1.0, 3.0, 0.2, 10.0, 50.0, 0.0, -2.0, 500.0]))
        ops.append(["target", t, draw(st.sampled_from([30, 1, 2, 5, 60, 12]))])
    d["ops"] = ops
    return d


def cond(t, est, T):
    """(go on?, clear-cut?)"""
    a, b = abs(t - T), abs(t + est - T)
    return a >= b, abs(a - b) > 1e-9 * (abs(t) + abs(T) + est)


def check(case, ctx):
    with warnings.catch_warnings(record=True) as ws:     # one context, so that nothing can be muted for later
        warnings.simplefilter("always")
        check_runs(case, ctx, ws)


def check_runs(case, ctx, ws):
    R = ref.RefDomain(case)
    P = sim.seeded(case)
    np.random.seed(case["rng"])
    n = len(case["seeds"])
    stats = dict(limited=0, reached=0, past=0, edge=0, dead=0)
    for op in case["ops"]:
        before = ref.snap(P.walk_data)
        del ws[:]
        w = sim.run_op(P, op)
        ref.check_walk(w, [], n)
        if op[0] != "target":
            continue
        T, lim = op[1], op[2]
        must, mustnot = set(), set()
        for p in range(n):
            t = w["travel_times"][p]
            path = ref.path(w, p)
            n0 = len(before["xinds"][p])
            ensure(t[:n0] == before["travel_times"][p], "particle %d: earlier times changed", p)
            steps = len(t) - n0
            ensure(steps <= lim, "particle %d took %d steps, limit is %d", p, steps, lim)
            ests = [0.1] if n0 == 1 else [t[n0 - 1] - t[n0 - 2], max(0.1, t[n0 - 1] - t[n0 - 2])]
            if R.near_edge(*path[n0 - 1]):
                ensure(steps == 0, "particle %d moved on from an edge", p)
                mustnot.add(p)
                stats["edge"] += 1
                continue
            k = n0 - 1
            while True:
                cs = [cond(t[k], e, T) for e in ests]
                go = all(c for c, _ in cs)
                stop = all(not c for c, _ in cs)
                clear = all(x for _, x in cs) and (go or stop)
                if k < len(t) - 1:     # it went on
                    ensure(go or not clear, "particle %d, target %r: went on from t=%r (last increment %r) to "
                           "t=%r although the next increment was expected to overshoot", p, T, t[k], ests, t[k + 1])
                    k += 1
                    ests = [max(0.1, t[k] - t[k - 1])]
                    continue
                # it stopped here
                i, j = path[-1]
                wt, dead, doubtful = R.weights(i, j)
                still = R.near_edge(i, j) or R.border(i, j) or wt[4] > 0 or doubtful
                if still:
                    stats["dead"] += 1
                if steps < lim:
                    mustnot.add(p)
                    ensure(stop or not clear or still, "particle %d, target %r: stopped at t=%r after %d of %d "
                           "steps, last increment %r, cell %r, although one more increment would not "
                           "overshoot", p, T, t[k], steps, lim, ests, (i, j))
                    if stop and clear:
                        stats["past" if steps == 0 else "reached"] += 1
                elif go and clear and not still:
                    must.add(p)
                    stats["limited"] += 1
                break
        msgs = [str(x.message) for x in ws if "iteration limit" in str(x.message)]
        if not case["verbose"]:
            ensure(not msgs, "warned although messages are off: %r", msgs)
        elif must or msgs:
            ensure(len(msgs) == 1, "%d warnings about the iteration limit for particles %r", len(msgs), must)
            found = re.findall(r"\[([^][]*)\]", msgs[0])
            ensure(bool(found), "the warning does not name the particles: %r", msgs[0])
            named = [int(x) for x in re.findall(r"\d+", found[-1])]
            ensure(bool(named), "a warning about the iteration limit that names nobody: %r", msgs[0])
            ensure(len(set(named)) == len(named), "particles named twice: %r", named)
            ensure(must <= set(named), "particles %r reached the step limit, the warning names %r",
                   sorted(must), named)
            ensure(not (set(named) & mustnot), "particles %r were not stopped by the limit, the warning names %r",
                   sorted(set(named) & mustnot), named)
            ctx.label("warning checked")
    for k, v in stats.items():
        if v:
            ctx.label(k)
    ctx.nontrivial(stats["reached"] > 0 or stats["limited"] > 0)


@st.composite
def flowing(draw):
    """Everything moves: uniform-ish flow in a basin without edges."""
    d = draw(cases(lo=6, hi=12, celltypes=False, water="wet", nan=False, border=False))
    L, W = d["L"], d["W"]
    d["cell_type"] = [[2 if i in (0, L - 1) or j in (0, W - 1) else 0 for j in range(W)] for i in range(L)]
    d["gamma"] = draw(st.sampled_from([0.05, 0.0]))
    sg = draw(st.sampled_from([1.0, -1.0]))
    for i in range(L):
        for j in range(W):
            d["qx"][i][j] = sg * (i - (L - 1) / 2.0) * 0.5 + d["qx"][i][j] / 8
            d["qy"][i][j] = sg * (j - (W - 1) / 2.0) * 0.5 + d["qy"][i][j] / 8
    return d


@st.composite
def default_cases(draw):
    L, W = draw(st.sampled_from([[5, 5], [4, 6], [6, 4], [5, 9]]))
    return dict(L=L, W=W, n=draw(st.integers(1, 2)), seed=[draw(st.integers(1, L - 2)), draw(st.integers(1, W - 2))],
                steps=draw(st.sampled_from([None, 1500, 9000, 9999, 10050])), dx=draw(st.sampled_from([1.0, 10.0])),
                rng=draw(gen.rng_seed))


def check_default(case, ctx):
    """Without a limit given, ten thousand steps are allowed."""
    L, W, n = case["L"], case["W"], case["n"]
    d = dict(L=L, W=W, dx=case["dx"], depth=np.ones((L, W)), stage=np.zeros((L, W)), diff=0.0, verbose=True,
             qx=[[(i - (L - 1) / 2.0) for j in range(W)] for i in range(L)],
             qy=[[(j - (W - 1) / 2.0) for j in range(W)] for i in range(L)],
             cell_type=[[2 if i in (0, L - 1) or j in (0, W - 1) else 0 for j in range(W)] for i in range(L)],
             seeds=[case["seed"]] * n)
    # the mean time per step is measured, so that the target lies about `steps` steps ahead
    P = sim.seeded(d)
    np.random.seed(case["rng"])
    w = P.run_iteration(target_time=1e9 * case["dx"], max_iter=300)
    taken = [len(t) - 1 for t in w["travel_times"]]
    if min(taken) < 300:
        ctx.label("stopped early")
        return
    rate = sum(t[-1] for t in w["travel_times"]) / sum(taken)
    T = 1e12 * case["dx"] if case["steps"] is None else case["steps"] * rate
    P = sim.seeded(d)
    np.random.seed(case["rng"])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        w = P.run_iteration(target_time=T)
    msgs = [str(x.message) for x in ws if "iteration limit" in str(x.message)]
    limited = []
    for p in range(n):
        t = w["travel_times"][p]
        steps = len(t) - 1
        ensure(steps <= 10000, "particle %d took %d steps, 10000 are allowed by default", p, steps)
        go, clear = cond(t[-1], max(0.1, t[-1] - t[-2]), T)
        if steps < 10000:
            ensure(not go or not clear, "particle %d, target %r: stopped at t=%r after %d steps, 10000 are allowed by "
                   "default", p, T, t[-1], steps)
        elif go and clear:
            limited.append(p)
    ensure(bool(msgs) >= bool(limited), "particles %r reached the default limit without a warning", limited)
    ctx.label("limited" if limited else "reached")
    ctx.nontrivial(True)


@st.composite
def midpoint_cases(draw):
    """A straight channel with even travel times; targets close to the deciding midpoints."""
    inc = draw(st.sampled_from([1.0, 0.25, 2.0 ** -6, 2.0 ** -4, 8.0, 0.125, 0.03]))
    n = draw(st.integers(6, 40))
    t0 = draw(st.sampled_from([0, 0, 4.0]))
    t, ops = float(t0), []
    for _ in range(draw(st.integers(1, 5))):
        e = draw(st.sampled_from([0.1, 0.1, inc, max(0.1, inc)]))
        k = draw(st.integers(0, 6)) if ops else draw(st.sampled_from([0, 0, 0, 1, 3]))
        T = t + k * inc + e * draw(st.sampled_from([0.45, 0.49, 0.499, 0.501, 0.51, 0.55, 0.0, 1.0, -0.5, 0.25, 0.75, 0.4, 0.6]))
        ops.append(["target", T, draw(st.sampled_from([50, 3, 1, 2]))])
        if draw(st.integers(0, 3)):
            t = T
    speed = draw(st.sampled_from([1.0, 2.0, 0.5]))
    return dict(L=3, W=n, dx=inc * speed, depth=[[0.0] * n, [1.0] * n, [0.0] * n], stage=[[0.0] * n] * 3, gamma=0.0,
                u=[[speed] * n] * 3, v=[[0.0] * n] * 3, cell_type=[[0] * n] * 3, diff=0.0, dry=0.1,
                seeds=[[1, 1]] * draw(st.integers(1, 2)), verbose=draw(st.booleans()), t0=t0, rng=1, ops=ops)



def check_bulk(case, ctx):
    case["t0"] = case["rng"] % 3 * 50
    case["verbose"] = case["rng"] % 4 > 0
    t = 0.0
    for op in case["ops"]:
        if op[0] == "target":
            t = op[1] = t + op[1] * case["dx"]
    check(case, ctx)


SUBS = [
    Sub("rule", lambda: cases(hi=11), check, 2500, 40000,
        "random domain, 1-8 particles, up to 5 calls with rising, equal or falling targets and step limits "
        "1-60; every recorded entry and every stop judged by the rule, warnings parsed; non-trivial if "
        "some particle reached its target after a step or was stopped by the limit"),
    Sub("flowing", flowing, check, 1500, 25000, "the same in closed basins with rotating flow, where nobody leaves"),
    Sub("default limit", default_cases, check_default, 24, 300, "closed basins, no limit given, targets about 1500 to 10050 steps "
        "ahead or out of reach; non-trivial if nobody is stuck"),
    Sub("midpoints", midpoint_cases, check, 1600, 20000, "a straight channel with even travel times; targets just before and just "
        "after the midpoint between two positions, within 0.1 s of the start, and with steps shorter than 0.1 s; non-trivial as above"),
    sim.bulk(check_bulk, dry=False),
]
