import builtins

from matplotlib.backend_bases import MouseEvent

import props.c25_resolution as c25
from lib import *

P = Property("C22", rule="Dialogues of 1-8 boxes (around points, large, empty, drawn from any corner, on any of one to three axes, clicks on different axes or outside first) and "
             "answers (quit, continue, undo, mistyped) on collections of 1-8 sets with missing points; non-trivial = some points are rejected and some boxes are undone "
             "or some answers or clicks have to be repeated.",
             assumptions=["no point lies exactly on the edge of a box", "the user ends the dialogue",
                         "the first set has a valid point (matplotlib 3.11 itself cannot lay out an empty log-log plot)"])
BAD = ["", "3", "q", "-1", "00", " 1", "yes", "1.0"]


@st.composite
def case_dialogue(draw):
    sets = []
    for i in range(draw(st.sampled_from([1, 2, 3, 1, 2, 3, 5, 8]))):
        if draw(st.integers(0, 24)) == 24:
            ncol, nrow, seed = 30, draw(st.sampled_from([None, 4])), draw(seeds)
            sets.append({"ncol": ncol, "nrow": nrow, "seed": seed, "miss": flags(ncol * (nrow or 1), seed + 1, 0.2)})
            continue
        ncol = draw(st.integers(1, 6))
        nrow = draw(st.sampled_from([None, None, 1, 2, 3]))
        sets.append({"ncol": ncol, "nrow": nrow, "seed": draw(seeds), "miss": draw(st.lists(st.sampled_from([0, 0, 0, 0, 1]), min_size=ncol * (nrow or 1), max_size=ncol * (nrow or 1)))})
    nax = draw(st.sampled_from([1, 2, 1, 3]))
    ops = []
    for _ in range(draw(st.sampled_from([5, 6, 4, 7, 3, 8, 2, 1]))):
        kind = draw(st.sampled_from(["around", "empty", "around", "frac", "empty", "around"]))
        op = {"kind": kind, "ax": draw(st.integers(0, nax - 1)), "flip": [draw(st.booleans()), draw(st.booleans())],
              "retry": draw(st.lists(st.sampled_from(["cross", "outside"] if nax > 1 else ["outside"]), max_size=1 if draw(st.integers(0, 3)) == 0 else 0))}
        if kind == "around":
            op.update(pt=draw(st.integers(0, 40)), w=draw(st.sampled_from([1, 5, 30, 90])) + 0.37, h=draw(st.sampled_from([1, 5, 30, 300])) + 0.41)
        elif kind == "frac":
            op.update(x=sorted(draw(st.lists(st.integers(1, 99), min_size=2, max_size=2, unique=True))), y=sorted(draw(st.lists(st.integers(1, 99), min_size=2, max_size=2, unique=True))))
        op["answers"] = draw(st.lists(st.sampled_from(BAD), max_size=1)) + [draw(st.sampled_from(["2", "1", "2", "1", "2", "0"]))]
        ops.append(op)
    if nax == 1:
        xt, yt = draw(st.sampled_from(["wavelength", "frequency"])), draw(st.sampled_from(["velocity", "slowness"]))
        xt, yt = draw(st.sampled_from([[xt, yt], [[xt], [yt]]]))
    elif nax == 3:
        xt = draw(st.lists(st.sampled_from(["frequency", "wavelength", "frequency"]), min_size=3, max_size=3))
        yt = draw(st.lists(st.sampled_from(["velocity", "slowness", "velocity"]), min_size=3, max_size=3))
    else:
        xt, yt = draw(st.sampled_from([[["frequency", "wavelength"], ["velocity", "velocity"]], [["wavelength", "frequency"], ["velocity", "slowness"]],
                                       [("frequency", "frequency"), ("velocity", "slowness")]]))
    return {"sets": sets, "x": xt, "y": yt, "ops": ops, "res": draw(st.sampled_from([None, None, ["wavelength", [3.0, 60.0]], ["wavenumber", [0.05, 1.0]]])),
            "kw": draw(st.sampled_from([None, None, {"color": "r"}])), "reskw": draw(st.sampled_from([None, {"color": "#00aa00"}, {"linewidth": 3.0}]))}


def arrays(q):
    n = q["ncol"] * (q["nrow"] or 1)
    f = np.tile(5.0 + 4.0 * np.arange(q["ncol"]) + np.round(noise(1, q["seed"] + 3)[0], 2), q["nrow"] or 1)
    v = np.where(np.array(q["miss"], bool), np.nan, np.round(250 + 120 * noise(n, q["seed"]), 3))
    return f, v


def dom(f, v, name):
    return {"frequency": f, "velocity": v, "wavelength": v / f, "slowness": 1 / v}[name]


class User:
    """Answers the dialogue from the script and keeps the model: which points are committed and pending."""

    def __init__(self, c):
        self.c, self.ops = c, list(c["ops"])
        self.f, self.v = map(np.concatenate, zip(*[arrays(q) for q in c["sets"]]))
        self.alive = ~np.isnan(self.v)
        self.pending = np.zeros_like(self.alive)
        self.xt, self.yt = ([c["x"]] if isinstance(c["x"], str) else list(c["x"])), ([c["y"]] if isinstance(c["y"], str) else list(c["y"]))
        self.answers, self.current, self.attempts = [], None, []
        self.ended = False
        self.redraws, self.undone, self.committed, self.asked_again = True, 0, 0, 0
        self.view = None

    def click(self, fig, px, py):
        e = MouseEvent("button_press_event", fig.canvas, px, py, button=1)
        fig.canvas.callbacks.process("button_press_event", e)
        return (e.xdata, e.ydata) if e.inaxes is not None else (0.0, 0.0)

    def ginput(self, fig, n=1, timeout=30, *a, **kw):
        if n != 2:
            return []
        ensure(not self.ended, "another box is asked for after quitting")
        ensure(not self.answers, "a box is asked for although the last one was empty and no decision was taken")
        if self.redraws:
            self.shown(fig)
            self.redraws = False
        elif self.pending.any():
            self.marked(fig)
        if self.current is None:
            self.current = self.ops.pop(0) if self.ops else {"kind": "empty", "ax": 0, "flip": [False, False], "retry": [], "answers": ["0"]}
            self.attempts = list(self.current["retry"])
        if self.attempts:
            how = self.attempts.pop(0)
            self.asked_again += 1
            b0 = fig.axes[0].bbox
            p = self.click(fig, b0.x0 + 0.5 * b0.width, b0.y0 + 0.5 * b0.height)
            if how == "cross":
                b1 = fig.axes[1].bbox
                return [p, self.click(fig, b1.x0 + 0.9 * b1.width, b1.y0 + 0.9 * b1.height)]
            return [p, self.click(fig, 0.5, 0.5)]
        op, self.current = self.current, None
        ax = fig.axes[op["ax"]]
        b = ax.bbox
        good = np.flatnonzero(self.alive)
        if op["kind"] == "around" and len(good):
            k = good[op["pt"] % len(good)]
            px, py = ax.transData.transform((dom(self.f, self.v, self.xt[op["ax"]])[k], dom(self.f, self.v, self.yt[op["ax"]])[k]))
            xs, ys = [px - op["w"], px + op["w"]], [py - op["h"], py + op["h"]]
        elif op["kind"] == "frac":
            xs, ys = [b.x0 + (q + 0.137) / 101 * b.width for q in op["x"]], [b.y0 + (q + 0.137) / 101 * b.height for q in op["y"]]
        else:
            xs, ys = [b.x0 + 0.2, b.x0 + 0.7], [b.y0 + 0.2, b.y0 + 0.7]
        xs = [min(max(q, b.x0 + 0.01), b.x1 - 0.01) for q in xs]
        ys = [min(max(q, b.y0 + 0.01), b.y1 - 0.01) for q in ys]
        xs = xs[::-1] if op["flip"][0] else xs
        ys = ys[::-1] if op["flip"][1] else ys
        pts = [self.click(fig, x, y) for x, y in zip(xs, ys)]
        x, y = dom(self.f, self.v, self.xt[op["ax"]]), dom(self.f, self.v, self.yt[op["ax"]])
        (x0, y0), (x1, y1) = pts
        with np.errstate(invalid="ignore"):
            inside = self.alive & (x > min(x0, x1)) & (x < max(x0, x1)) & (y > min(y0, y1)) & (y < max(y0, y1))
        if inside.any():
            self.pending |= inside
        else:
            self.answers = list(op["answers"])
        return pts

    def input(self, prompt=""):
        ensure(len(self.answers), "a decision is asked for although the last box held points")
        a = self.answers.pop(0)
        if a in BAD:
            self.asked_again += 1
            return a
        ensure(not self.answers, "harness: answers left")
        if a in "01":
            self.committed += int(np.sum(self.pending))
            self.alive &= ~self.pending
        else:
            self.undone += int(np.sum(self.pending))
        self.pending[:] = False
        self.ended = a == "0"
        self.redraws = True
        return a

    def shown(self, fig):
        for ax, xt, yt in zip(fig.axes, self.xt, self.yt):
            pts = [q for l in ax.get_lines() if l.get_marker() not in (None, "None", "") for q in np.asarray(l.get_xydata()).reshape(-1, 2).tolist()]
            want = np.array([dom(self.f, self.v, xt)[self.alive], dom(self.f, self.v, yt)[self.alive]]).T
            ensure_close(np.array(sorted(pts)).reshape(-1, 2), np.array(sorted(want.tolist())).reshape(-1, 2), "points shown after the decision", rtol=1e-12)
            self.limits(ax, xt, yt)
        view = [tuple(ax.get_xlim()) + tuple(ax.get_ylim()) for ax in fig.axes]
        self.view = view if self.view is None else self.view
        ensure_close(np.array(view), np.array(self.view), "range shown after the decision", rtol=1e-9)

    def marked(self, fig):
        """Points inside the boxes drawn so far are drawn again on top, so that the user sees what is going to be rejected."""
        for ax, xt, yt in zip(fig.axes, self.xt, self.yt):
            pts = [q for l in ax.get_lines() if l.get_marker() not in (None, "None", "") for q in np.asarray(l.get_xydata()).reshape(-1, 2).tolist()]
            x, y = dom(self.f, self.v, xt), dom(self.f, self.v, yt)
            for k in np.flatnonzero(self.alive):
                n = sum(abs(a - x[k]) <= 1e-9 * x[k] and abs(b - y[k]) <= 1e-9 * y[k] for a, b in pts)
                same = np.sum(self.alive & (np.abs(x - x[k]) <= 1e-9 * x[k]) & (np.abs(y - y[k]) <= 1e-9 * y[k]))   # points of other sets in the same place
                ensure((n > same) == bool(self.pending[k]), "points marked are those in the boxes", point=(x[k], y[k]), drawn=n, pending=bool(self.pending[k]))

    def limits(self, ax, xt, yt):
        """The resolution limits asked for are shown from the start and after every decision."""
        curves = [l for l in ax.get_lines() if l.get_marker() in (None, "None", "") and l.get_visible() and l.get_transform().contains_branch(ax.transData)]
        if self.c["res"] is None:
            ensure(not curves, "a curve is drawn although no limits were asked for")
            return
        name, lims = self.c["res"]
        want = sorted(q if name == "wavelength" else 2 * np.pi / q for q in lims)
        have = []
        for l in curves:
            w = c25.wavelength_of(xt, yt, l.get_xdata(), l.get_ydata())
            ensure(len(w) > 1 and np.ptp(w) <= 1e-9 * w[0], "wavelength along a limit", x=xt, y=yt)
            have.append(w[0])
            for k, q in (self.c["reskw"] or {}).items():
                ensure(getattr(l, "get_" + k)() == q, "style of the limits", key=k)
        ensure_close(np.array(sorted(have)), np.array(want), "limits shown")


@P.check(case_dialogue, 130)
def dialogue(c, r):
    """Exactly the points in confirmed boxes are rejected."""
    import matplotlib.figure as mf
    sets = []
    for i, q in enumerate(c["sets"]):
        f, v = arrays(q)
        sh = (q["ncol"],) if q["nrow"] is None else (q["nrow"], q["ncol"])
        sets.append(Peaks(f.reshape(sh), v.reshape(sh), identifier=f"s{i}"))
    suite = PeaksSuite.from_peaks(sets)
    user = User(c)
    if not len(sets[0].frequency):
        return
    with mock.patch.object(mf.Figure, "ginput", lambda self, *a, **k: user.ginput(self, *a, **k)), mock.patch.object(builtins, "input", user.input), \
            mock.patch.object(mf.Figure, "show", lambda self, warn=True: None):
        suite.interactive_trimming(xtype=c["x"], ytype=c["y"], plot_kwargs=c["kw"], resolution_limits=c["res"], resolution_limits_plot_kwargs=c["reskw"])
    ensure(user.ended, "the dialogue ended although the user did not quit")
    r.nt(user.committed and (user.undone or user.asked_again))
    r.label("rejected" if user.committed else "nothing rejected", "undone" if user.undone else "not undone", "asked again" if user.asked_again else "never asked again", f"{len(user.xt)} axes")
    start = 0
    for p, q in zip(suite, c["sets"]):
        f, v = arrays(q)
        keep = user.alive[start:start + len(f)]
        start += len(f)
        ensure(np.array_equal(p.frequency, f[keep]) and np.array_equal(p.velocity, v[keep]), "points kept", got=list(zip(p.frequency, p.velocity)), want=list(zip(f[keep], v[keep])))
