import matplotlib.pyplot as plt
from swprocess.interact import ginput_session

from lib import *

P = Property("C26", rule="Picking sessions of 1-6 points (unlimited or not) with unanswered and repeated requests, ignored mouse buttons while a key is waited for and early exits, on the current or another "
             "figure; mute dialogues on every side and orientation; threshold picks on generated first arrivals; non-trivial = a request is answered with several clicks or "
             "none, the muted array differs from the original, or the arrivals differ between sensors.",
             assumptions=["the scripted user answers at Figure.ginput and Figure.waitforbuttonpress as matplotlib documents them"])
coord = st.integers(-400, 400).map(lambda k: k / 8)


@st.composite
def case_session(draw):
    npts = draw(st.integers(1, 6))
    pts = []
    for _ in range(npts):
        pts.append({"empty": draw(st.sampled_from([0, 0, 0, 1, 2])), "clicks": [list(draw(st.tuples(coord, coord))) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))],
                    "waits": draw(st.lists(st.sampled_from([False, None]), max_size=2)), "idle": draw(st.sampled_from([None, None, False]))})
    return {"pts": pts, "exit": draw(st.integers(1, npts)) if draw(st.booleans()) else None, "limit": draw(st.sampled_from(["exact", "more", "inf"])),
            "adjust": draw(st.booleans()), "adjust_waits": draw(st.lists(st.sampled_from([False, None]), max_size=2)), "ask": draw(st.booleans()),
            "other": draw(st.booleans()), "method": draw(st.booleans()), "msg": draw(st.sampled_from([None, "go"]))}


class Script:
    """A user following the case; records the order of what happened."""

    def __init__(self, c, npts):
        self.c, self.log, self.figs = c, [], []
        self.k = 0                      # points given
        self.left = c["pts"][0]["empty"]
        self.stage = "adjust" if c["adjust"] else "click"
        self.waits = list(c["adjust_waits"])
        self.exit, self.npts = c["exit"], npts

    def ginput(self, fig, n=1, timeout=30, *a, **kw):
        self.figs.append(fig)
        ensure(self.stage == "click", f"asked for clicks, but the user is still in stage {self.stage}")
        ensure(self.k < len(self.c["pts"]), "asked for more points than the task needs")
        ensure(timeout is None or timeout <= 0, "a selection times out")
        if self.left:
            self.left -= 1
            return []
        q = self.c["pts"][self.k]
        self.k += 1
        self.stage = "ask" if self.c["ask"] else "idle"
        self.waits = list(q["waits"])
        return [tuple(p) for p in (q["clicks"][:n] if n > 0 else q["clicks"])]

    def wait(self, fig, timeout=-1):
        self.figs.append(fig)
        if timeout is None or timeout < 0:              # waits until answered
            ensure(self.stage in ("adjust", "ask"), f"waits for a key in stage {self.stage}")
            if self.waits:
                return self.waits.pop(0) or False       # a mouse button
            self.stage = "click" if self.stage == "adjust" else "idle"
            return True
        if self.stage != "idle":                        # nobody reacts this fast before being asked
            return None
        ans = True if self.exit == self.k else self.c["pts"][self.k - 1]["idle"]
        self.stage = "over" if ans else "click"
        self.left = self.c["pts"][self.k]["empty"] if self.k < len(self.c["pts"]) else 0
        return ans


def patched(user):
    import contextlib
    import matplotlib.figure as mf
    stack = contextlib.ExitStack()
    stack.enter_context(mock.patch.object(mf.Figure, "ginput", lambda self, *a, **k: user.ginput(self, *a, **k)))
    stack.enter_context(mock.patch.object(mf.Figure, "waitforbuttonpress", lambda self, *a, **k: user.wait(self, *a, **k)))
    return stack


@P.check(case_session, 350)
def sessions(c, r):
    """The picks are the last clicks of each answered request, up to the number asked for or the early exit."""
    n = len(c["pts"])
    if c["limit"] != "exact":
        c = {**c, "exit": c["exit"] or n}               # an open-ended session is ended by the user
    npts = {"exact": n, "more": n + 3, "inf": np.inf}[c["limit"]]
    want = [p["clicks"][-1] for p in c["pts"][:c["exit"] or n]]
    fig, ax = plt.subplots()
    before = plt.subplots()[0] if c["other"] else None
    user = Script(c, npts)
    f = Array1D._ginput_session if c["method"] else ginput_session
    with patched(user):
        xs, ys = f(ax, npts=npts, initial_adjustment=c["adjust"], ask_to_continue=c["ask"], initial_adjustment_message=c["msg"], ask_to_continue_message=c["msg"])
    r.nt(any(len(p["clicks"]) > 1 or p["empty"] for p in c["pts"]))
    r.label("early exit" if c["exit"] and c["exit"] < n else "all points", "other figure" if before is not None else "current figure", c["limit"])
    ensure([list(map(float, q)) for q in zip(xs, ys)] == want and len(xs) == len(ys) == len(want), "points returned", got=(xs, ys), want=want)
    ensure(all(q is fig for q in user.figs), "the user was asked on a figure other than the one given")
    shown = [list(map(float, q)) for l in ax.get_lines() for q in l.get_xydata()]
    ensure(shown == want, "points marked on the axes", got=shown, want=want)


@st.composite
def case_mute(draw):
    c = draw(st_array(min_ch=2, max_ch=6, min_n=16, max_n=48, max_pre=6))
    c["where"] = draw(st.sampled_from(["before", "after", "both", "both"]))
    c["axis"] = draw(st.sampled_from([None, "x", "y"]))
    c["norm"] = draw(st.booleans())
    c["window"] = draw(st.sampled_from([None, {"alpha": 0.0}, {"alpha": 0.5}]))
    k = draw(st.lists(st.integers(0, 7), min_size=4, max_size=4))
    c["t"] = [k[0] + 0.3, k[1] + 0.3, c["n"] - 9 + k[2] + 0.3, c["n"] - 9 + k[3] + 0.3]
    c["d"] = draw(st.lists(st.integers(0, 24).map(lambda q: q / 4), min_size=4, max_size=4))
    c["swap"] = [draw(st.booleans()), draw(st.booleans())]
    c["extra"] = draw(st.lists(st.sampled_from([0, 0, 1, 2]), min_size=4, max_size=4))
    return c


@P.check(case_mute, 120)
def mute_dialogue(c, r):
    """The picked lines are returned for the side asked for, and the array is muted along them."""
    arr, ref = make_array(c), make_array(c)
    x0, x1 = c["xs"][0], c["xs"][-1]
    d = [x0 - c["d"][0], x1 + c["d"][1], x0 - c["d"][2], x1 + c["d"][3]]
    t = [(q - c["pre"]) * c["dt"] for q in c["t"]]
    lines = {"before": ((d[0], t[0]), (d[1], t[1])), "after": ((d[2], t[2]), (d[3], t[3]))}
    for k, key in enumerate(("before", "after")):
        if c["swap"][k]:
            lines[key] = lines[key][::-1]
    sides = ["before", "after"] if c["where"] == "both" else [c["where"]]
    shift = x0 if c["norm"] else 0.0
    clicks = []
    for s in sides:
        for k, (a, b) in enumerate(lines[s]):
            p = (b, a - shift) if c["axis"] == "x" else (a - shift, b)
            clicks.append([(p[0] + 1.0, p[1] - 1.0)] * c["extra"][len(clicks)] + [p])
    wk = {"position_normalization": c["norm"]}
    if c["axis"]:
        wk["time_ax"] = c["axis"]
    kw = {"mute_location": c["where"], "waterfall_kwargs": wk}
    if c["window"] is not None:
        kw["window_kwargs"] = c["window"]
    with scripted_user(clicks, on_click=lambda fig, n, ans: ans[:n] if n > 0 else ans) as log:
        start, end = arr.interactive_mute(**kw)
    ensure(log["clicks"] == len(clicks), "requests for clicks", used=log["clicks"])
    for got, key in ((start, "before"), (end, "after")):
        if key not in sides:
            ensure(got is None, f"a line for the side {key}, which was not asked for", got=got)
        else:
            ensure_close(np.array(got, float), np.array(lines[key]), f"line picked for the side {key}", rtol=1e-12)
    ref.mute(signal_start=lines["before"] if "before" in sides else None, signal_end=lines["after"] if "after" in sides else None, window_kwargs=c["window"])
    orig = make_array(c)
    for s, q, o in zip(arr, ref, orig):
        ensure_close(s.amplitude, q.amplitude, "muted amplitude", rtol=1e-9)
        ensure(s.x == o.x and s.nsamples == o.nsamples and s.delay == o.delay, "the dialogue changed a sensor")
    r.nt(any(not np.array_equal(q.amplitude, o.amplitude) for q, o in zip(ref, orig)))
    r.label(c["where"], f"time on {c['axis'] or 'default'}", "normalized" if c["norm"] else "absolute")


@st.composite
def case_manual(draw):
    c = draw(st_array(min_ch=2, max_ch=5, min_n=8, max_n=24, max_pre=4))
    c["axis"] = draw(st.sampled_from([None, "x", "y"]))
    c["pts"] = draw(st.lists(st.tuples(coord, coord).map(list), min_size=1, max_size=6))
    return c


@P.check(case_manual, 60)
def manual_arrivals(c, r):
    """Distances and times are returned in this order whichever axis is time; the array is untouched."""
    arr = make_array(c)
    before = [state_of(s) for s in arr]
    clicks = [[p[::-1] if c["axis"] == "x" else p] for p in c["pts"]]
    n = [0]

    def press(timeout):
        if timeout is None or timeout < 0:
            return True
        n[0] += 1
        return n[0] == len(clicks) or None

    with scripted_user(clicks, presses=press):
        dist, time = arr.manual_pick_first_arrivals(**({"waterfall_kwargs": {"time_ax": c["axis"]}} if c["axis"] else {}))
    r.nt(len(c["pts"]) > 1)
    ensure([list(map(float, q)) for q in zip(dist, time)] == c["pts"], "picks", got=(dist, time))
    for s, b in zip(arr, before):
        ensure_state(b, state_of(s), "picking changed a sensor")


@st.composite
def case_auto(draw):
    c = draw(st_array(min_ch=1, max_ch=6, min_n=24, max_n=80, max_pre=8, big=True))
    n = len(c["xs"])
    c["onset"] = draw(st.lists(st.integers(0, c["n"] - 2), min_size=n, max_size=n))
    c["thr"] = draw(st.sampled_from([None, 0.02, 0.1, 0.25, 0.4]))
    c["drift"] = draw(st.sampled_from([0.0, 0.3, -2.0]))
    c["scale_each"] = draw(st.lists(st.sampled_from([1.0, 1e-3, 50.0]), min_size=n, max_size=n))
    return c


@P.check(case_auto, 400)
def auto_arrivals(c, r):
    """The automatic pick is the first sample whose normalised departure from the pre-event level exceeds the threshold."""
    n = c["n"]
    k = np.arange(n)
    amps = []
    for i, on in enumerate(c["onset"]):
        a = noise(n, c["seed"] * 64 + i) * np.where(k >= on, 1.0, 0.001) + c["drift"] * k / n + 0.5
        amps.append(a * c["scale_each"][i])
    arr = make_array(c, amps=np.array(amps))
    thr = 0.05 if c["thr"] is None else c["thr"]
    want = []
    for a in amps:
        kk = k - k.mean()
        d = a - a.mean() - kk * (kk @ a) / (kk @ kk)
        d = d / np.max(np.abs(d))
        dev = np.abs(d - np.mean(d[:10]))
        if np.min(np.abs(dev - thr)) < 1e-9 or not np.any(dev > thr):
            return
        want.append((np.flatnonzero(dev > thr)[0] - c.get("pre", 0)) * c["dt"])
    r.nt(len(set(want)) > 1)
    before = [state_of(s) for s in arr]
    pos, times = arr.auto_pick_first_arrivals(**({} if c["thr"] is None else {"algorithm": "threshold", "threshold": thr}))
    ensure(list(pos) == c["xs"], "positions of the picks", got=pos)
    ensure_close(np.array(times), np.array(want), "picked times", rtol=1e-9, atol=1e-12)
    for s, b in zip(arr, before):
        ensure_state(b, state_of(s), "picking changed a sensor")


@P.check(lambda: st.sampled_from(["Threshold", "aic", "", "stalta"]).map(lambda a: {"alg": a}), 4)
def unknown_algorithm(c, r):
    r.nt(True)
    with must_raise(NotImplementedError, msg=c["alg"]):
        make_array({"xs": [0.0, 2.0], "n": 12, "dt": 1 / 256, "seed": 3, "src": -1.0, "nstacks": 1, "pre": 0, "order": [0, 1]}).auto_pick_first_arrivals(algorithm=c["alg"])
