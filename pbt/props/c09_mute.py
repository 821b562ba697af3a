from lib import *

P = Property("C09", rule="Arrays of 2-6 traces (pre-trigger samples, none, or starting after the trigger) muted with slanted lines before, after or both, "
             "running through, along and beyond the record; non-trivial = a line has a slope and some samples are kept and some removed.",
             assumptions=["lines fall exactly on a sample or a quarter sample after it (either neighbour is accepted as the boundary then)",
                          "without an end line the very last sample may or may not belong to the kept part"])


def tukey(m, alpha, sym=True):
    """Tapered-cosine window, from its definition."""
    if not sym and m > 1:
        return tukey(m + 1, alpha)[:-1]
    if m <= 1 or alpha <= 0:
        return np.ones(max(m, 0))
    out = np.ones(m)
    edge = alpha * (m - 1) / 2
    for k in range(m):
        d = min(k, m - 1 - k)
        if d < edge:
            out[k] = 0.5 * (1 - np.cos(np.pi * d / edge))
    return out


@st.composite
def st_line(draw, n):
    return {"at": draw(st.integers(-n // 3, n + n // 3)), "frac": draw(st.sampled_from([0.0, 0.25])), "slope": draw(st.integers(-2, 3)),
            "x1": draw(st.integers(-20, 40)), "dx": draw(st.integers(1, 40)), "swap": draw(st.booleans())}


@st.composite
def case_mute(draw):
    c = draw(st_array(max_ch=6, min_n=16, max_n=60, max_pre=12, big=True))
    c["ys"] = [0.0] * len(c["xs"])
    if draw(st.integers(0, 49)) == 0:                        # more samples than a short integer counts
        c["n"] = 40000
    c["cut"] = draw(st.sampled_from([0, 0, 0, c["pre"], c["pre"] + 3]))
    c["which"] = draw(st.sampled_from(["both", "both", "before", "after", "none"]))
    c["start"] = draw(st_line(c["n"]))
    c["gap"] = draw(st.integers(1, c["n"]))
    c["endfrac"] = draw(st.sampled_from([0.0, 0.25]))
    c["endslope"] = draw(st.integers(0, 2))
    c["window"] = draw(st.sampled_from([None, None, {"alpha": 0}, {"alpha": 0.5}, {"alpha": 1}, {"alpha": 0.1}, {"sym": False}, {"sym": True},
                                          {"alpha": 0.5, "sym": False}]))
    return c


def line_points(l, dt, xs, npre):
    """Two points (distance, time) of a line which is at sample `at`+frac for the first sensor, moving `slope` samples per quarter metre."""
    f = lambda x: (l["at"] + l["frac"] + l["slope"] * (x - xs[0]) / 0.25 - npre) * dt  # noqa: E731
    x1, x2 = xs[0] + l["x1"] * 0.25, xs[0] + (l["x1"] + l["dx"]) * 0.25
    pts = ((x1, f(x1)), (x2, f(x2)))
    return pts[::-1] if l["swap"] else pts


def indices(l, xs):
    """Candidate boundary samples per sensor: [all floors] and, off the grid, [all ceilings]."""
    p = [l["at"] + l["frac"] + l["slope"] * (x - xs[0]) / 0.25 for x in xs]
    lo = [int(np.floor(v)) for v in p]
    return [lo] if l["frac"] == 0 else [lo, [v + 1 for v in lo]]


@P.check(case_mute, 1200)
def window(c, r):
    """Outside the lines nothing is left; inside, the record times the taper; lines may leave the record."""
    xs, dt = c["xs"], c["dt"]
    a = make_array(c)
    amps = array_amps(c)
    cut = min(c["cut"], c["n"] - 8)
    npre = c["pre"]
    if cut:
        a.trim((cut - npre) * dt, (c["n"] - 1 - npre) * dt)
        amps, npre = amps[:, cut:], npre - cut
    n = amps.shape[1]
    start = c["start"]
    # the end line lies after the start line at every sensor
    span = (xs[-1] - xs[0]) / 0.25
    end = {**start, "at": start["at"] + c["gap"], "frac": c["endfrac"], "slope": start["slope"] + c["endslope"]}
    del span
    s_line = line_points(start, dt, xs, npre) if c["which"] in ("both", "before") else None
    e_line = line_points(end, dt, xs, npre) if c["which"] in ("both", "after") else None
    r.label(c["which"], "post-trigger" if npre < 0 else "pre-trigger" if npre > 0 else "at trigger", "default window" if c["window"] is None else "custom window")
    given = None if c["window"] is None else dict(c["window"])
    ret = a.mute(signal_start=s_line, signal_end=e_line, window_kwargs=given)
    ensure(ret is None, "mute returns nothing")
    ensure(given == c["window"], "the caller's window settings were modified")
    alpha = {"alpha": 0.2} if c["window"] is None else {"alpha": 0.5, **c["window"]}         # without a taper named: that of the window function
    starts = indices(start, xs) if s_line else [[0] * len(xs)]
    ends = indices(end, xs) if e_line else [[n - 1] * len(xs), [n] * len(xs)]
    got = np.asarray(a.timeseriesmatrix())

    def expected(si, ei):
        out = np.zeros_like(amps)
        for k in range(len(xs)):
            i = min(max(si[k], 0), n)
            j = min(max(ei[k], i), n)
            out[k, i:j] = amps[k, i:j] * tukey(j - i, **alpha)
        return out

    opts = [expected(si, ei) for si in starts for ei in ends]
    kept = np.count_nonzero(opts[0])
    r.nt(0 < kept < amps.size - len(xs) and start["slope"] != 0)
    r.label("some kept" if 0 < kept else "nothing kept")
    ensure(any(close(got, o, atol=1e-12) for o in opts), "muted record is not the windowed record", got=got, want=opts[0])
    for s, x in zip(a.sensors, xs):
        ensure(s.x == x and s.dt == dt and s.nsamples == n and s.nstacks == c["nstacks"], "muting changed metadata")
        ensure_close(s.time, (np.arange(n) - npre) * dt, "muting changed the time axis", rtol=1e-12)


@P.check(case_mute, 250)
def again(c, r):
    """Muting a record a second time, whatever the window then, does what it does to a record never muted before."""
    xs, dt, n, npre = c["xs"], c["dt"], c["n"], c["pre"]
    s_line = line_points({**c["start"], "at": n // 6, "slope": 0}, dt, xs, npre)
    e_line = line_points({**c["start"], "at": n - 3, "slope": 0}, dt, xs, npre)
    r.nt()
    second = [{"alpha": 1}, {"alpha": 0.25}, None, {"alpha": 0.75, "sym": False}][c["gap"] % 4]
    a = make_array(c)
    a.mute(s_line, e_line, c["window"] and dict(c["window"]))
    b = make_array(c, amps=np.asarray(a.timeseriesmatrix()), order=range(len(xs)))
    for q in (a, b):
        q.mute(s_line, e_line, second)
    ensure_close(a.timeseriesmatrix(), b.timeseriesmatrix(), "the second mute of an array is not that of a fresh one", rtol=1e-12)


@P.check(case_mute, 200)
def outside_is_silent(c, r):
    """A line past the end of every trace mutes everything; lines around the whole record with a rectangular window mute nothing."""
    xs, dt = c["xs"], c["dt"]
    n, npre = c["n"], c["pre"]
    r.nt()
    f = lambda s: (s - npre) * dt  # noqa: E731
    a = make_array(c)
    a.mute(signal_start=((xs[0], f(n + 2)), (xs[-1], f(n + 2 + c["gap"]))))
    ensure(not np.any(a.timeseriesmatrix()), "samples before the signal window survived")
    a = make_array(c)
    a.mute(signal_end=((xs[0], f(-1)), (xs[-1], f(-1 - c["gap"]))))
    ensure(not np.any(a.timeseriesmatrix()), "samples after the signal window survived")
    a = make_array(c)
    a.mute(signal_start=((xs[0], f(-2)), (xs[-1], f(-2 - c["gap"]))), signal_end=((xs[0], f(n + 2)), (xs[-1], f(n + 2 + c["gap"]))), window_kwargs={"alpha": 0})
    ensure_close(a.timeseriesmatrix(), array_amps(c), "a window around the whole record changed it", rtol=0)
