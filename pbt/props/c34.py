"""C34 animations show the numbered figures in order."""
import os
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, plots
from pbt.core import Sub, ensure, scratch

TECHNIQUE = "property-based testing (Hypothesis): generated figure folders, the movie is read back frame by frame"
ASSUMPTIONS = ["ffmpeg is not installed: a stand-in program of that name, found through Matplotlib's settings and PATH inside a "
               "scratch directory, stores the raw frames it is sent; encoding is not covered."]
COLOURS = [[255, 0, 0], [0, 200, 0], [0, 0, 255], [200, 200, 0], [0, 200, 200], [200, 0, 200], [120, 60, 20], [90, 160, 240]]


@st.composite
def cases(draw):
    n = draw(st.sampled_from([2, 3, 4, 1, 2, 13, 11, 3, 2]))
    start = draw(st.sampled_from([0, 1, 2, 9, 10, 98, 0]))
    b = draw(gen.blob(4 * (n + 4)))
    return dict(start=start, n=n, colours=[[x % 8 for x in b[4 * k:4 * k + 4]] for k in range(n + 4)],
                size=draw(st.sampled_from([[40, 60], [50, 30], [250, 400], [20, 20], [37, 23], [2, 2]])), alpha=draw(st.booleans()),
                clear=[draw(st.sampled_from([255, 255, 128, 255, 200])) for _ in range(4)],
                before=draw(st.integers(0, 2)), after=draw(st.integers(0, 2)),
                folder=draw(st.sampled_from(["out", "a/b.c", "abs"])), old=draw(st.booleans()),
                plain=draw(st.booleans()))


def picture(case, k):
    h, w = case["size"]
    img = np.zeros((h, w, 4 if case["alpha"] else 3), np.uint8)
    if case["alpha"]:
        img[..., 3] = 255
    q = [COLOURS[c] for c in case["colours"][k]]
    h2, w2 = h // 2, w // 2
    if case["alpha"]:
        img[:h2, :w2, 3], img[:h2, w2:, 3], img[h2:, :w2, 3], img[h2:, w2:, 3] = case["clear"]
    img[:h2, :w2, :3], img[:h2, w2:, :3], img[h2:, :w2, :3], img[h2:, w2:, :3] = q
    return img


def looks(case, k):
    """The colours of the quadrants of figure k, on white paper."""
    a = [x / 255.0 if case["alpha"] else 1.0 for x in case["clear"]]
    return [[255 + (v - 255) * a[i] for v in COLOURS[c]] for i, c in enumerate(case["colours"][k])]


def quadrants(frame):
    """Colours at the middle of the quadrants of the coloured part of a frame."""
    f = frame[..., :3].astype(int)
    col = (f.max(-1) - f.min(-1)) > 25
    ensure(col.any(), "a frame without the picture")
    r, c = np.flatnonzero(col.any(1)), np.flatnonzero(col.any(0))
    h, w = r[-1] - r[0], c[-1] - c[0]
    q = [f[r[0] + a * h // 4, c[0] + b * w // 4].tolist() for a in (1, 3) for b in (1, 3)]
    lines = dict(upper=(f[r[0] + h // 4, c[0]:c[-1] + 1], q[0], q[1]), lower=(f[r[0] + 3 * h // 4, c[0]:c[-1] + 1], q[2], q[3]),
                 left=(f[r[0]:r[-1] + 1, c[0] + w // 4], q[0], q[2]), right=(f[r[0]:r[-1] + 1, c[0] + 3 * w // 4], q[1], q[3]))
    parts = {}
    for k, (line, a, b) in lines.items():
        if a != b:
            n = [(np.abs(line - np.array(x)).max(-1) < 12).sum() for x in (a, b)]
            parts[k] = n[0] / float(sum(n))
    return q, parts


def check(case, ctx):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib import image
    from PIL import Image
    from dorado import routines as rt
    start, n = case["start"], case["n"]
    end = start + n
    with scratch() as d:
        tool = os.path.join(d, "bin", "ffmpeg")
        os.mkdir(os.path.dirname(tool))
        with open(tool, "w") as f:
            f.write('#!/bin/sh\nfor last; do :; done\necho "$@" > "%s/args"\nexec cat > "$last"\n' % d)
        os.chmod(tool, 0o755)
        work = os.path.join(d, "work")
        os.mkdir(work)
        os.chdir(work)
        folder = case["folder"] if case["folder"] != "abs" else os.path.join(work, "abs")
        os.makedirs(os.path.join(folder, "figs"))
        shown = {}
        for k in range(max(0, start - case["before"]), end + case["after"]):
            shown[k] = picture(case, (k - start) % (n + 4))
            to = os.path.join(folder, "figs", "output%d.png" % k)
            if case["plain"]:
                Image.fromarray(shown[k]).save(to)
            else:
                image.imsave(to, shown[k])
        if case["old"]:
            with open(os.path.join(folder, "animation.mp4"), "w") as f:
                f.write("an earlier movie")
        before = {x: open(os.path.join(work, x), "rb").read() for x in plots.tree(work) if x.endswith(".png")}
        path, rc = os.environ["PATH"], matplotlib.rcParams["animation.ffmpeg_path"]
        os.environ["PATH"] = os.path.dirname(tool) + os.pathsep + path
        matplotlib.rcParams["animation.ffmpeg_path"] = tool
        try:
            plt.close("all")
            rt.animate_plots(start, end, folder)
        finally:
            plt.close("all")
            os.environ["PATH"] = path
            matplotlib.rcParams["animation.ffmpeg_path"] = rc
        movie = os.path.join(folder, "animation.mp4")
        ensure(os.path.exists(movie), "no animation.mp4 in the folder, only %r", plots.tree(work))
        with open(os.path.join(d, "args")) as f:
            m = re.search(r"-s (\d+)x(\d+)", f.read())
        w, h = int(m.group(1)), int(m.group(2))
        raw = np.fromfile(movie, np.uint8)
        ensure(raw.size % (w * h * 4) == 0, "%d bytes of frames of %d x %d", raw.size, w, h)
        frames = raw.reshape(-1, h, w, 4)
        ensure(len(frames) == n, "%d frames for the figures %d to %d (%d)", len(frames), start, end - 1, n)
        for k, fr in enumerate(frames):
            got, parts = quadrants(fr)
            want = looks(case, k)
            ensure(np.abs(np.array(got) - np.array(want)).max() < 12, "frame %d shows the quadrants %r, figure %d has %r", k,
                   got, start + k, want)
            for side, share in parts.items():
                size = case["size"][side in ("left", "right") and 0 or 1]
                ensure(abs(share - size // 2 / float(size)) < 0.01, "frame %d: the %s half of the picture is divided at %.3f, the "
                       "figure of %r pixels at %.3f", k, side, share, case["size"], size // 2 / float(size))
        after = {x: open(os.path.join(work, x), "rb").read() for x in plots.tree(work)}
        extra = {x for x in after if x not in before and not x.endswith("animation.mp4")}
        ensure(not extra, "further files were written: %r", sorted(extra))
        ensure(all(after.get(x) == v for x, v in before.items()), "the figures were changed")
    ctx.label("frames=%d" % n)
    ctx.nontrivial(n > 1 and len({tuple(c) for c in case["colours"][:n]}) > 1)


SUBS = [Sub("movies", cases, check, 96, 1500,
            "folders with figures of four coloured quadrants (several sizes down to 2x2, more figures before and after the range, an earlier "
            "movie), one to four frames from any start number; every frame read back; non-trivial if two frames differ")]
