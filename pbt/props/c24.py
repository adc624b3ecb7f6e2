"""C24 flux-proportional seeding distributes exactly the requested particles."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub, ensure, refused

TECHNIQUE = "property-based testing (Hypothesis): quota, sum and monotonicity predicates over generated series"


@st.composite
def cases(draw):
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
    kind = draw(st.sampled_from(["ints", "floats", "dyadic", "equal", "sparse", "orders", "tiny"]))
    dtype = draw(st.sampled_from(["float64", "float64", "float32"]))
    if kind == "ints":
        q = draw(st.lists(st.integers(-20, 20), min_size=n, max_size=n))
        dtype = draw(st.sampled_from(["int64", "int32", "int16"]))
    elif kind == "floats":
        q = draw(st.lists(st.floats(-1e4, 1e4, allow_nan=False, width=32), min_size=n, max_size=n))
    elif kind == "dyadic":
        q = [gen.FLUX[b % 16] for b in draw(gen.blob(n))]
    elif kind == "equal":
        q = [draw(st.sampled_from([1.0, -0.1, 3, 7.7]))] * n
    elif kind == "sparse":
        q = [0.0 if b % 4 else (b - 100) / 7.0 for b in draw(gen.blob(n))]
    elif kind == "orders":
        b = draw(gen.blob(2 * n))
        q = [(1 + b[2 * k] / 256.0) * 10.0 ** (b[2 * k + 1] % 16 - 9) * (-1) ** (b[2 * k + 1] // 128) for k in range(n)]
    else:
        q = [b * 1e-9 for b in draw(gen.blob(n))]
    if dtype == "float32":
        q = [float(x) for x in np.array(q, dtype)]
    return dict(Q=q, dtype=dtype, N=draw(st.integers(0, 400)) if dtype == "float32" else draw(st.one_of(st.integers(0, 50), st.sampled_from([1, 7, 10 ** 9, 100, 1000, 12345, 10 ** 8, 10 ** 6]))),
                shape=draw(st.sampled_from(["flat", "column"])), short=draw(st.sampled_from([0, 0, 0, 0, 0, 1, 3])))


def check(case, ctx):
    import dorado.particle_track as pt
    q = np.array(case["Q"], case.get("dtype"))
    n = len(q)
    if case["shape"] == "column":
        q = gen.arr(q.reshape(-1, 1), layout=n)
    elif n % 3 == 1:     # not contiguous
        q = np.repeat(q, 2)[::2]
    keep = q.copy()
    if case["short"]:
        refused(lambda: pt.flux_proportional_seeding(q, case["N"], n + case["short"]), (ValueError,),
                "%d values for %d steps" % (n, n + case["short"]))
        ctx.label("too short")
        return
    if not np.any(q):
        refused(lambda: pt.flux_proportional_seeding(q, case["N"], n), (ValueError,), "a series without discharge")
        ctx.label("no discharge")
        return
    # float32-sized values of wildly different size: shares are compared as exact fractions
    if n % 2 == 0:      # the same array with other contents before
        q[...] = np.abs(q[::-1]) + 1
        pt.flux_proportional_seeding(q, case["N"], n)
        q[...] = keep
    got = pt.flux_proportional_seeding(q, case["N"], n)
    ensure(np.array_equal(q, keep), "the series was changed")
    ensure(np.size(got) == n, "%d counts for %d steps", np.size(got), n)
    c = [x for x in np.ravel(got)]
    ensure(all(float(x) == int(x) and x >= 0 for x in c) and np.asarray(got).dtype.kind in "iu",
           "counts %r are not whole numbers", c)
    c = [int(x) for x in c]
    ensure(sum(c) == case["N"], "counts %r sum to %d, not %d", c, sum(c), case["N"])
    a = [abs(Fraction(float(x))) for x in case["Q"]]
    tot = sum(a)
    share = [x / tot * case["N"] for x in a]
    tol = Fraction(1, 10 ** (12 if q.dtype != np.float32 else 5)) * max(1, case["N"])
    for k in range(n):
        ensure(abs(c[k] - share[k]) < 1 + tol, "step %d gets %d particles, its share is %.12g (Q=%r, N=%d)", k, c[k],
               float(share[k]), case["Q"], case["N"])
        ensure(a[k] > 0 or c[k] == 0, "step %d has no discharge and gets %d particles (Q=%r, N=%d)", k, c[k], case["Q"],
               case["N"])
    order = sorted(range(n), key=lambda k: share[k])
    top = 0
    for x, y in zip(order, order[1:]):
        # the largest count among clearly smaller shares
        ensure(c[y] >= c[x] or share[y] - share[x] <= tol, "step %d with share %.12g gets %d, step %d with share %.12g "
               "gets %d (Q=%r, N=%d)", y, float(share[y]), c[y], x, float(share[x]), c[x], case["Q"], case["N"])
    ctx.label(case["shape"])
    ctx.label("exact shares" if all(s.denominator == 1 for s in share) else "remainders")
    ctx.nontrivial(n > 1 and case["N"] > 0 and any(s.denominator != 1 for s in share))


SUBS = [Sub("series", cases, check, 8000, 150000,
            "1-60 steps, whole, float, dyadic, equal, sparse and tiny discharges or of very different size, of either sign, flat or as a column, 0 "
            "to a billion particles; judged with exact fractions; non-trivial if shares are not whole")]


@st.composite
def bulk_cases(draw):
    return dict(bulk=draw(gen.rng_seed), n=draw(st.sampled_from([365, 1000, 150, 3000])), N=draw(st.sampled_from([500, 12345, 100, 10 ** 6, 10 ** 8 + 7])),
                kind=draw(st.sampled_from(["floats", "tide", "ints"])), shape=draw(st.sampled_from(["flat", "column"])))


def check_bulk(case, ctx):
    rs = np.random.RandomState(case["bulk"])
    n = case["n"]
    q = dict(floats=rs.standard_normal(n) * 1e3, tide=np.sin(np.arange(n) / 7.0) + 0.2, ints=rs.randint(-9, 10, n))[case["kind"]]
    check(dict(Q=q.tolist(), N=case["N"], shape=case["shape"], short=0), ctx)


SUBS.append(Sub("bulk", bulk_cases, check_bulk, 96, 1500, "150 to 3000 steps, up to 100 million particles; non-trivial as above"))
