"""C02 particles stop for good next to an edge cell and otherwise stall only in dead ends."""
from hypothesis import strategies as st

import numpy as np

from pbt import gen, ref, sim
from pbt.core import Sub, ensure


def may_stay(R, i, j):
    """(must_stay, may_stay) of a particle at (i, j) for one step, or None if undecided."""
    if R.near_edge(i, j) or R.border(i, j):
        return True, True
    w, dead, doubtful = R.weights(i, j)
    if doubtful:
        return None
    others = any(w[k] > 0 for k in range(9) if k != 4)
    if w[4] > 0 and not others:
        return True, True
    if w[4] > 0:
        return False, not R.sd      # dead end with a tie: the walk may stay, steepest descent may not
    return (not others), (not others)


def check(case, ctx):
    R = ref.RefDomain(case)
    P = sim.seeded(case)
    np.random.seed(case["rng"])
    n = len(case["seeds"])
    frozen, moved, stalled, resumed = 0, 0, 0, 0
    for op in case["ops"]:
        reps = op[1] if op[0] == "step" else 1
        for _ in range(reps):
            pos = [(P.walk_data["xinds"][p][-1], P.walk_data["yinds"][p][-1]) for p in range(n)]
            lens = [len(P.walk_data["xinds"][p]) for p in range(n)]
            if op[0] == "step":
                w = P.run_iteration()
            else:
                w = P.run_iteration(target_time=op[1], max_iter=op[2])
            ref.check_walk(w, [], n)
            for p in range(n):
                i, j = pos[p]
                add = len(w["xinds"][p]) - lens[p]
                if R.near_edge(i, j):
                    frozen += 1
                    ensure(add == 0, "particle %d at %r borders an edge cell but moved on to %r",
                           p, (i, j), ref.path(w, p)[lens[p]:][:3])
                    continue
                if op[0] == "step":
                    m = may_stay(R, i, j)
                    if m is None:
                        continue
                    must, may = m
                    if add == 0:
                        ensure(may, "particle %d at %r did not move although it is not next to an edge "
                               "and not the deepest cell of a dead end (weights %s)", p, (i, j),
                               R.weights(i, j)[0])
                        stalled += 1
                    else:
                        ensure(not must, "particle %d left %r for %r, where no neighbour is a destination",
                               p, (i, j), ref.path(w, p)[-1])
                        ensure(add == 1, "particle %d recorded %d entries in one step", p, add)
                        moved += 1
                else:
                    # every entry but the last was left again, so it was not next to an edge
                    for (a, b) in ref.path(w, p)[lens[p]:-1]:
                        ensure(not R.near_edge(a, b),
                               "particle %d went on from %r, which borders an edge cell", p, (a, b))
                    # it comes to rest only where it has to, unless the target or the step limit is near
                    t = w["travel_times"][p]
                    a, b = ref.path(w, p)[-1]
                    if add < op[2] - 1 and op[1] - t[-1] > 1e-9 + max(0.1, t[-1] - t[-2] if len(t) > 1 else 0):
                        m = may_stay(R, a, b)
                        ensure(m is None or m[1], "particle %d rests at %r at time %r of %r although it is not next to an "
                               "edge and not the deepest cell of a dead end", p, (a, b), t[-1], op[1])
                    resumed += 1
    for name, v in (("frozen at edge", frozen), ("moved", moved), ("stalled in dead end", stalled)):
        if v:
            ctx.label(name)
    sim.domain_labels(case, ctx)
    ctx.nontrivial(bool(moved and (frozen or stalled)))


SUBS = [
    Sub("stops", lambda: sim.scenarios(hi=11, npmax=8), check, 5000, 80000,
        "random domain with inferred or given edge cells, up to 8 particles, single steps mixed with "
        "target-time runs that go on after particles have stopped; non-trivial if in one case particles "
        "moved and others were frozen next to an edge or stalled in a dead end"),
    Sub("stops-large", lambda: sim.scenarios(lo=8, hi=20, npmax=20, max_steps=60, max_lim=80, op_hi=3),
        check, 500, 8000, "the same on grids up to 20x20"),
    sim.bulk(check),
]
