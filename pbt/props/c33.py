"""C33 logging set-up applies the requested level and destination without duplicates."""
import contextlib
import io
import logging
import os
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import plots
from pbt.core import Sub, ensure, refused, scratch

TECHNIQUE = "model-based testing (Hypothesis): generated sequences of set-up calls against a model of level and destinations"
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
BAD = ["FOO", "", "basic_format", " INFO", "INFO ", "verbose", "10", 10, None, 2.5, ["INFO"], True, "INFOO"]


CALLS = ["exposure_time", "get_state", "get_time_state", "Particles"]
SLOW = ["steady_plots", "time_plots", "unsteady_plots", "unsteady_more", "plot_exposure_time", "thresholds", "saved_exposure", "snake_plots"]
FOLDER = "Saving files in existing directory"


def call(name, verbose, d="."):
    """A public function taking the deprecated flag, called so that it has something to say.

    Returns a message it gives at most once, at which level it gives it."""
    import dorado.particle_track as pt
    import dorado.routines as rt
    walk = dict(xinds=[[0, 1]], yinds=[[0, 0]], travel_times=[[0.0, 1.0]])

    def domain():
        p = pt.modelParams()
        p.dx, p.depth, p.stage = 1.0, np.ones((6, 6)), np.zeros((6, 6))
        p.qx, p.qy = np.ones((6, 6)), np.zeros((6, 6))
        return p
    if name in SLOW:
        out = os.path.join(d, name)
        os.makedirs(out, exist_ok=True)
        kw = {} if verbose is None else dict(verbose=verbose)
        if name.startswith("unsteady"):
            flow = os.path.join(d, "flow")
            os.makedirs(flow, exist_ok=True)
            p = domain()
            np.savez(os.path.join(flow, "data1.npz"), depth=p.depth, stage=p.stage, qx=p.qx, qy=p.qy)
            more = name == "unsteady_more"
            rt.unsteady_plots(1.0, 2, [2], [2], 2 if more else 1, 1.0, flow, "npz", folder_name=out, **kw)
            return ("num_steps exceeds", "WARNING") if more else (FOLDER, "INFO")
        if name in ("steady_plots", "time_plots"):
            q = pt.Particles(domain())
            q.generate_particles(2, [2], [2])
            (rt.steady_plots if name == "steady_plots" else rt.time_plots)(q, 1, folder_name=out, **kw)
            return FOLDER, "INFO"
        walk["travel_times"] = [[0.0, 10.0]]
        if name == "snake_plots":
            rt.snake_plots(np.ones((4, 4)), walk, 1, folder_name=out, **kw)
            return FOLDER, "INFO"
        if name == "thresholds":
            rt.plot_exposure_time_thresholds(walk, [2.0], folder_name=out, save_output=False, **kw)
            return "E75: ", "INFO"
        saves = name == "saved_exposure"
        rt.plot_exposure_time(walk, [2.0], folder_name=out, save_output=saves, show_thresholds=not saves, **kw)
        return (FOLDER if saves else "E75: "), "INFO"
    said = call_plain(name, verbose, walk, pt, rt)
    return said and (said, "INFO")


def call_plain(name, verbose, walk, pt, rt):
    if name == "exposure_time":
        pt.exposure_time(walk, np.ones((2, 2), int), verbose=verbose)
        return "Particles within ROI"
    if name == "get_state":
        rt.get_state(walk, 5, verbose=verbose)
        return "have not reached"
    if name == "get_time_state":
        rt.get_time_state(walk, 9.0, verbose=verbose)
        return "never reached"
    p = pt.modelParams()
    p.dx, p.depth, p.stage, p.qx, p.qy = 1.0, np.ones((4, 4)), np.zeros((4, 4)), np.ones((4, 4)), np.zeros((4, 4))
    p.verbose = verbose
    pt.Particles(p)
    return None


@st.composite
def cases(draw, calls=CALLS):
    ops = []
    for _ in range(draw(st.integers(1, 8 if calls is CALLS else 5))):
        k = draw(st.sampled_from(["setup", "setup", "handler", "bad", "verbose", "setup", "file", "default"] if calls is CALLS else
                                 ["verbose", "setup", "verbose", "handler", "file", "verbose"]))
        lv = draw(st.sampled_from(LEVELS))
        lv = [lv, lv.lower(), lv.capitalize(), lv.swapcase()][draw(st.integers(0, 3))]
        h = draw(st.integers(0, 2))
        flag = draw(st.sampled_from([True, False, 1, 0, "np1", "np0", None]))
        if k == "verbose" and (calls is not CALLS or draw(st.booleans())):
            ops.append(["call", flag, draw(st.sampled_from(calls))])
        elif k == "verbose":
            ops.append([k, flag])
        elif k == "bad":
            ops.append([k, draw(st.sampled_from(BAD)), draw(st.sampled_from([None, 0, 1]))])
        else:
            ops.append([k, lv, h])
    return dict(ops=ops, every=draw(st.booleans()), api=draw(st.booleans()))


class Keep(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []

    def emit(self, r):
        self.got.append((r.levelname, r.getMessage()))


@contextlib.contextmanager
def fresh_logger():
    lg = logging.getLogger("dorado")
    keep = lg.level, list(lg.handlers), lg.propagate, list(lg.filters)
    lg.handlers[:] = []
    lg.setLevel(logging.NOTSET)
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        yield lg, sys.stderr
    finally:
        sys.stderr = err
        for h in lg.handlers:
            if isinstance(h, logging.FileHandler):
                h.close()
        lg.setLevel(keep[0])
        lg.handlers[:] = keep[1]
        lg.propagate = keep[2]


def check(case, ctx):
    import dorado
    import dorado.particle_track as pt
    from dorado import logging_config as lc
    made = [Keep() for _ in range(3)]
    used, files = [], {}
    level, console = None, False
    n = 0
    # one context for warnings, so that nothing can be muted for later
    with scratch() as d, fresh_logger() as (lg, err), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")

        def probe():
            nonlocal n
            n += 1
            marks = {}
            for lv in LEVELS:
                marks[lv] = "probe-%d-%s" % (n, lv)
                lg.log(getattr(logging, lv), marks[lv])
            want = LEVELS[LEVELS.index(level):]
            if case["api"]:
                # a message of the package itself
                m = len(err.getvalue())
                before = [len(h.got) for h in made]
                pt.exposure_time(dict(xinds=[[0, 1]], yinds=[[0, 0]], travel_times=[[0.0, 1.0]]), np.ones((2, 2), int))
                k = int("INFO" in want)
                ensure(err.getvalue()[m:].count("Particles within ROI") == (k if console else 0), "after %r the package's "
                       "own message appears %d times on the console", done, err.getvalue()[m:].count("Particles within"))
                for h, b in zip(made, before):
                    ensure(len(h.got) - b == (k if h in used else 0), "after %r a handler received %d messages of the "
                           "package", done, len(h.got) - b)
            for lv in LEVELS:
                k = int(lv in want)
                c = err.getvalue().count(marks[lv])
                ensure(c == (k if console else 0), "after %r a message of level %s appears %d times on the console (level "
                       "%s, console %s)", done, lv, c, level, console)
                for i, h in enumerate(made):
                    c = h.got.count((lv, marks[lv]))
                    ensure(c == (k if h in used else 0), "after %r a message of level %s reached handler %d %d times "
                           "(level %s, handler given: %s)", done, lv, i, c, level, h in used)
                for i, h in files.items():
                    h.flush()
                    with open(os.path.join(d, "f%d.log" % i)) as f:
                        text = f.read()
                    ensure(text.count(marks[lv]) == k, "after %r a message of level %s is in file %d %d times", done, lv,
                           i, text.count(marks[lv]))

        done = []
        for op in case["ops"]:
            done.append(op)
            if op[0] in ("verbose", "call"):
                op = [op[0], np.bool_(op[1][2] == "1") if isinstance(op[1], str) else op[1]] + op[2:]
            if op[0] in ("verbose", "call"):
                said = None
                m = len(err.getvalue())
                before = [len(h.got) for h in made]
                del w[:]
                if op[0] == "call":
                    said = call(op[2], op[1], d)
                else:
                    lc.handle_verbose_deprecation(op[1])
                dep = [x for x in w if issubclass(x.category, DeprecationWarning)]
                ensure((len(dep) > 0) == (op[1] is not None) and len(dep) < (2 if op[0] == "verbose" or op[2] not in SLOW else 9), "%r gives %d DeprecationWarnings", op, len(dep))
                now = LEVELS.index("INFO" if op[1] else "ERROR" if op[1] is not None else level or "WARNING")
                if said and (op[1] is not None or level is not None):
                    k = int(now <= LEVELS.index(said[1]))
                    said = said[0]
                    ensure(err.getvalue()[m:].count(said) == (k if console or not (used or files) else 0), "after %r the message "
                           "%r appears %d times on the console", done, said, err.getvalue()[m:].count(said))
                    for h, b in zip(made, before):
                        c = sum(said in text for _, text in h.got[b:])
                        ensure(c == (k if h in used else 0), "after %r a handler received the message %r %d times", done, said, c)
                if op[1] is None:
                    if level is None:
                        ensure(not lg.handlers and lg.level == logging.NOTSET, "verbose=None sets up logging")
                        continue
                else:
                    level = "INFO" if op[1] else "ERROR"
                    console = console or not (used or files)
            elif op[0] == "bad":
                kw = {} if op[2] is None else dict(handler=Keep())
                state = lg.level, list(lg.handlers)
                refused(lambda: dorado.setup_logging(op[1], **kw), (ValueError,), "level %r" % (op[1],))
                ensure((lg.level, list(lg.handlers)) == state, "the invalid level %r changed the set-up", op[1])
                if level is None:
                    continue
            else:
                kw = {}
                if op[0] == "handler":
                    kw = dict(handler=made[op[2]])
                    if made[op[2]] not in used:
                        used.append(made[op[2]])
                elif op[0] == "file":
                    i = op[2]
                    if i not in files:
                        files[i] = logging.FileHandler(os.path.join(d, "f%d.log" % i))
                    kw = dict(handler=files[i])
                if op[0] == "default":
                    dorado.setup_logging(**kw)
                    level = "WARNING"
                else:
                    dorado.setup_logging(op[1], **kw)
                    level = op[1].upper()
                console = console or not (used or files)
            if case["every"]:
                probe()
        if level is not None:
            probe()
    for k in {o[0] for o in case["ops"]}:
        ctx.label(k)
    good = [o for o in case["ops"] if o[0] != "bad" and not (o[0] == "verbose" and o[1] is None)]
    ctx.nontrivial(len(good) > 1)


def check_routines(case, ctx):
    with plots.figures():
        check(case, ctx)
    for o in case["ops"]:
        if o[0] == "call":
            ctx.label("%s verbose=%s" % (o[2], o[1]))


SUBS = [Sub("sequences", cases, check, 4000, 80000,
            "1-8 set-up calls: all levels in any letter case, the default, three handlers and three files in any order and "
            "repeatedly, invalid levels (also non-strings), the deprecated flag (directly and through the functions that take it); probed with messages of all levels and a "
            "message of the package after every call or at the end; non-trivial if two calls have an effect"),
        Sub("routines", lambda: cases(SLOW), check_routines, 160, 2400,
            "1-5 such calls where the deprecated flag is given to the plotting routines, which save to an existing folder or report "
            "exposure levels; non-trivial if two calls have an effect")]
