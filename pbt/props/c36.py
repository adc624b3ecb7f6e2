"""C36 unusual and omitted settings are announced, usual ones are not."""
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots
from pbt.core import Sub, ensure

TECHNIQUE = "property-based testing (Hypothesis): warnings and messages against the rule for the generated settings"
FLAGS = [None, True, False]
# what each omitted option is announced as, and the default that is named
NOTES = dict(theta=(r"theta", ["1.0", "1"]), gamma=(r"gamma", ["0.05", ".05"]), diff=(r"diffusion", ["0.2", ".2"]),
             dry=(r"minimum depth", ["10 cm", "0.1"]), cell_type=(r"cell.?type", []))


@st.composite
def cases(draw):
    d = draw(gen.domains(lo=3, hi=6, nan=False))
    for k, vals in dict(theta=[1.0, 0.0, 2.0], gamma=[0.05, 0.0, 1.0, 0.5], dry=[0.1, 0.01, 0.5],
                        diff=[-1.0, 0.0, 2.0, -0.001, 0.2, 1.99, 0, 3.5, 2, 2.0001, -1, 1.0, -1e-12], sd=[True, False]).items():
        d[k] = draw(st.sampled_from([None, None] + vals if k != "diff" else vals + [None, None]))
    d["cells"] = draw(st.sampled_from([None, "frame", "ocean", "open", None, "land"]))
    d["flag"] = draw(st.sampled_from(FLAGS))
    d["level"] = draw(st.sampled_from(["INFO", "WARNING", "DEBUG"]))
    d["times"] = draw(st.lists(st.sampled_from([0, 5.0, 0.0, 1, 1e-9, -3.0, 86400]), min_size=1, max_size=4))
    d["before"] = draw(st.sampled_from([[], [False], [False, True], [True]]))
    d["random"] = draw(st.booleans())
    d["rng"] = draw(gen.rng_seed)
    return d


def caught(f, ws):
    del ws[:]
    r = f()
    return r, [str(w.message) for w in ws if not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning,
                                                                         RuntimeWarning, FutureWarning))]


def check(case, ctx):
    with warnings.catch_warnings(record=True) as ws:     # one context, so that nothing can be muted for later
        warnings.simplefilter("always")
        for flag in case["before"]:
            p = gen.make_params(dict(case, cell_type=None))
            p.verbose = flag
            with plots.logged("WARNING"):
                import dorado.particle_track as pt
                pt.Particles(p).generate_particles(1, [1], [1], seed_time=case["times"][0])
        check_settings(case, ctx, ws)


def check_settings(case, ctx, heard):
    import dorado.particle_track as pt
    d = dict(case)
    L, W = d["L"], d["W"]
    inner = dict(frame=0, ocean=0, open=1, land=2)
    d["cell_type"] = [[-1 if case["cells"] == "frame" and (i in (0, L - 1) or j in (0, W - 1)) else inner[case["cells"]] for j in range(W)]
                      for i in range(L)] if case["cells"] else None
    p = gen.make_params(d)
    p.verbose = case["flag"]
    on = case["flag"] is not False
    said = "settings %r, verbose %r" % ({k: d[k] for k in ("theta", "gamma", "diff", "dry", "sd")}, case["flag"])
    with plots.logged(case["level"]) as msgs:
        P, ws = caught(lambda: pt.Particles(p), heard)
        # warnings
        diff = case["diff"]
        neg, big = diff is not None and diff < 0, diff is not None and diff >= 2
        for cond, word, what in ((neg, "negative", "a negative diffusion coefficient"),
                                 (big, "physical", "a diffusion coefficient of 2 or more")):
            got = [w for w in ws if word in w]
            ensure(len(got) == (cond and on), "%s: %d warnings about %s: %r", said, len(got), what, ws)
        ensure(len(ws) == ((neg or big) and on), "%s: warnings %r", said, ws)
        # notes, only from INFO on and not with the messages turned off
        info = [m for m in msgs]
        loud = on and (case["flag"] is True or case["level"] != "WARNING")
        ensure(loud or not info, "%s, level %s: messages %r", said, case["level"], info)
        if loud:
            for k, (word, vals) in NOTES.items():
                given = d.get(k) is not None
                got = [m for m in info if re.search(word, m, re.I) and not re.search("using (steepest|weighted)", m, re.I)]
                ensure(len(got) == (not given), "%s: %d messages about %s, which is %s: %r", said, len(got), k,
                       "given" if given else "omitted", info)
                if not given and k == "diff" and d["sd"]:
                    ensure("0.2" not in got[0], "%s: %r although steepest descent goes without diffusion", said, got[0])
                elif not given and vals:
                    ensure(any(v in got[0] for v in vals), "%s: the default of %s is announced as %r", said, k, got[0])
        del msgs[:]
        # seeding
        for t in case["times"]:
            np.random.seed(case["rng"])
            _, ws = caught(lambda: P.generate_particles(2, [L // 2], [W // 2], seed_time=t,
                                                        **({} if case["random"] else dict(method="exact"))), heard)
            got = [w for w in ws if "seed time" in w]
            ensure(len(got) == (t != 0 and on), "%s: seeding at time %r gives %d warnings about it: %r", said, t, len(got), ws)
            ensure(len(ws) == len(got), "%s: seeding at time %r: warnings %r", said, t, ws)
        ensure([h[0] for h in P.walk_data["travel_times"]] == [t for t in case["times"] for _ in "ab"], "seeded at %r, times %r",
               case["times"], P.walk_data["travel_times"])
    ctx.label("negative" if neg else "2 or more" if big else "usual diffusion")
    ctx.label("verbose %s" % case["flag"])
    ctx.label("notes" if loud else "no notes")
    ctx.nontrivial(on and (neg or big or any(case["times"])) or loud and any(d.get(k) is None for k in NOTES))


SUBS = [Sub("settings", cases, check, 2000, 30000, "optional settings given or omitted with diffusion coefficients below 0 and from 2 "
            "on, verbose true, false or unset, three logging levels, several seed times; non-trivial if something is to be "
            "announced")]
