import matplotlib.axes
import matplotlib.figure
import matplotlib.pyplot as plt

import props.c16_json as c16
from lib import *
from swprocess.wavefieldtransforms import FDBF, EmptyWavefieldTransform, PhaseShift

P = Property("C28", rule="Peak sets and collections of 1-4 sets with missing and rejected points, masks, several panels, given or new axes and per-set styles; arrays of 2-7 sensors with every waterfall "
             "option; images of 2-12 x 2-8 points with every plotting option; non-trivial = points are missing, rejected or masked, or the option under test is not the default.",
             assumptions=["the first set of a collection has a valid point and images are at least 2 x 2 with positive power (matplotlib cannot draw others)", "masks choose among valid points"])
QUANT = ["frequency", "wavelength", "velocity", "slowness", "wavenumber"]


@st.composite
def st_sets(draw, n):
    out = []
    for i in range(n):
        ncol, nrow = draw(st.integers(1, 6)), draw(st.sampled_from([None, None, 1, 2, 3]))
        k = ncol * (nrow or 1)
        miss = draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=k, max_size=k))
        miss[draw(st.integers(0, k - 1))] = 0
        out.append({"ncol": ncol, "nrow": nrow, "seed": draw(seeds), "miss": miss,
                    "mask": draw(st.lists(st.booleans(), min_size=k, max_size=k))})
    return out


@st.composite
def case_sets(draw):
    n = draw(st.integers(1, 4))
    npan = draw(st.sampled_from([1, 1, 2, 3]))
    pan = [[draw(st.sampled_from(QUANT)), draw(st.sampled_from(QUANT))] for _ in range(npan)]
    omit = draw(st.integers(0, 5)) == 0
    if omit:
        npan, pan = 1, [["frequency", "velocity"]]      # shown unless others are asked for
    return {"sets": draw(st_sets(n)), "pan": pan, "omit": omit, "as": draw(st.sampled_from(["str", "list", "tuple"])) if npan == 1 else draw(st.sampled_from(["list", "tuple"])),
            "ax": draw(st.booleans()), "masked": draw(st.booleans()), "reject": draw(st.one_of(st.none(), st.tuples(st.integers(150, 260), st.integers(261, 370)).map(list))),
            "color": draw(st.one_of(st.none(), st.just("r"), st.lists(st.sampled_from("rgbk"), min_size=n, max_size=n))),
            "label": draw(st.one_of(st.none(), st.just("same"), st.lists(st.sampled_from(["u", "w"]), min_size=n, max_size=n)))}


def arrays(q):
    n = q["ncol"] * (q["nrow"] or 1)
    f = np.tile(5.0 + 4.0 * np.arange(q["ncol"]) + np.round(noise(1, q["seed"] + 3)[0], 2), q["nrow"] or 1)
    return f, np.where(np.array(q["miss"], bool), np.nan, np.round(250 + 120 * noise(n, q["seed"]), 3))


def dom(f, v, name):
    return {"frequency": f, "velocity": v, "wavelength": v / f, "slowness": 1 / v, "wavenumber": 2 * np.pi * f / v}[name]


def as_types(c):
    xs, ys = [p[0] for p in c["pan"]], [p[1] for p in c["pan"]]
    return {"str": (xs[0], ys[0]), "list": (xs, ys), "tuple": (tuple(xs), tuple(ys))}[c["as"]]


def drawn(line):
    """The points a line shows: matplotlib leaves out those that are not numbers."""
    d = np.asarray(line.get_xydata(), float).reshape(-1, 2)
    return d[~np.isnan(d).any(axis=1)]


def build(c):
    sets, keeps = [], []
    for i, q in enumerate(c["sets"]):
        f, v = arrays(q)
        sh = (q["ncol"],) if q["nrow"] is None else (q["nrow"], q["ncol"])
        p = Peaks(f.reshape(sh), v.reshape(sh), identifier=f"s{i}")
        keep = ~np.isnan(v)
        if c["reject"]:
            lo, hi = c["reject"]
            with np.errstate(invalid="ignore"):
                new = keep & (v >= lo) & (v <= hi)
            if i or new.any():
                p.reject_limits_outside("velocity", (lo, hi))
                keep = new
        sets.append(p)
        keeps.append(keep)
    return sets, keeps


@P.check(case_sets, 140)
def collections(c, r):
    """Each panel shows, set by set, exactly the valid (or chosen) points in the panel's quantities, with the styles asked for."""
    sets, keeps = build(c)
    suite = PeaksSuite.from_peaks(sets)
    before = [(p.frequency.copy(), p.velocity.copy(), p.identifier) for p in suite]
    xt, yt = as_types(c)
    quantities = {} if c["omit"] else {"xtype": xt, "ytype": yt}
    kw = {k: c[k] for k in ("color", "label") if c[k] is not None}
    given = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
    masks = None
    if c["masked"]:
        masks = [(np.array(q["mask"], bool) & k).reshape((q["ncol"],) if q["nrow"] is None else (q["nrow"], q["ncol"])) for q, k in zip(c["sets"], keeps)]
        keeps = [m.ravel() for m in masks]
        if not keeps[0].any():
            return
        masks_before = [m.copy() for m in masks]
    if c["ax"]:
        _, axs = plt.subplots(ncols=len(c["pan"]))
        out = suite.plot(**quantities, ax=axs, plot_kwargs=kw or None, mask=masks)
        ensure(out is None, "axes given, yet something is returned", out=out)
        axs = np.atleast_1d(axs)
    else:
        fig, axs = suite.plot(**quantities, plot_kwargs=kw or None, mask=masks)
        ensure(list(axs) == list(fig.axes), "axes returned are those of the figure")
    r.nt(c["masked"] or any(not k.all() for k in keeps) or len(sets) > 1)
    r.label("given axes" if c["ax"] else "new axes", f"{len(axs)} panels", "masked" if c["masked"] else "valid")
    ensure(len(axs) == len(c["pan"]), "number of panels")
    for ax, (x, y) in zip(axs, c["pan"]):
        lines = list(ax.get_lines())
        ensure(len(lines) == len(sets), "one entry per set", n=len(lines))
        labels = []
        for i, (line, q, keep) in enumerate(zip(lines, c["sets"], keeps)):
            f, v = arrays(q)
            want = np.array([dom(f, v, x)[keep], dom(f, v, y)[keep]]).T
            ensure_close(drawn(line), want, f"points of set {i} in ({x}, {y})", rtol=1e-12)
            if c["color"]:
                ensure(line.get_color() == (c["color"] if isinstance(c["color"], str) else c["color"][i]), f"colour of set {i}", got=line.get_color())
            lab = f"s{i}" if c["label"] is None else c["label"] if isinstance(c["label"], str) else c["label"][i]
            labels.append(lab)
        shown = ax.get_legend_handles_labels()[1]
        ensure(sorted(shown) == sorted(set(labels)), "each label appears once in the legend", got=shown, want=labels)
        if x in ("frequency", "wavelength", "slowness"):
            ensure(ax.get_xscale() == "log", "scale of the horizontal axis", x=x)
    for p, (f, v, ident) in zip(suite, before):
        ensure(np.array_equal(p.frequency, f) and np.array_equal(p.velocity, v) and p.identifier == ident, "drawing changed a set")
    ensure(kw == given, "drawing changed the styles given")
    if masks is not None:
        ensure(all(np.array_equal(a, b) for a, b in zip(masks, masks_before)), "drawing changed the mask given")


@P.check(case_sets, 60)
def single_set(c, r):
    """A peak set drawn on its own."""
    sets, keeps = build(c)
    p, keep, q = sets[0], keeps[0], c["sets"][0]
    xt, yt = as_types(c)
    mask = None
    if c["masked"]:
        mask = (np.array(q["mask"], bool) & keep).reshape((q["ncol"],) if q["nrow"] is None else (q["nrow"], q["ncol"]))
        keep = mask.ravel()
        if not keep.any():
            return
    fig, axs = p.plot(**({} if c["omit"] else {"xtype": xt, "ytype": yt}), plot_kwargs={"color": "g"} if c["color"] else None, mask=mask)
    axs = np.atleast_1d(axs)
    r.nt(not keep.all() or len(axs) > 1)
    ensure(len(axs) == len(c["pan"]), "number of panels")
    f, v = arrays(q)
    for ax, (x, y) in zip(axs, c["pan"]):
        (line,) = ax.get_lines()
        ensure_close(drawn(line), np.array([dom(f, v, x)[keep], dom(f, v, y)[keep]]).T, f"points in ({x}, {y})", rtol=1e-12)


@st.composite
def case_refusal(draw):
    return {"sets": draw(st_sets(draw(st.integers(1, 3)))), "reject": None, "masked": False, "what": draw(st.sampled_from(["lengths", "masks", "axes", "quantity"])), "k": draw(st.integers(1, 3))}


@P.check(case_refusal, 40)
def refusals(c, r):
    """Panels, masks and axes that do not match, and unknown quantities, are refused."""
    suite = PeaksSuite.from_peaks(build(c)[0])
    r.nt(True)
    r.label(c["what"])
    k = c["k"]
    if c["what"] == "lengths":
        with must_raise(IndexError, msg="different numbers of horizontal and vertical quantities"):
            suite.plot(xtype=["frequency"] * (k + 1), ytype=["velocity"] * k)
    elif c["what"] == "masks":
        with must_raise(IndexError, msg="wrong number of masks"):
            suite.plot(mask=[None] * (len(suite) + k))
    elif c["what"] == "axes":
        axs = [plt.subplots()[1] for _ in range(k + 1)]
        with must_raise(IndexError, msg="wrong number of axes"):
            suite.plot(xtype=["frequency"] * k, ytype=["velocity"] * k, ax=axs)
    else:
        with must_raise(AttributeError, msg="unknown quantity"):
            suite.plot(xtype="frequency", ytype="speed")


@st.composite
def case_waterfall(draw):
    c = draw(st_array(min_ch=2, max_ch=7, min_n=6, max_n=40, max_pre=5, big=True))
    c.update(axis=draw(st.sampled_from([None, "x", "y"])), detrend=draw(st.sampled_from([None, True, False])), norm=draw(st.sampled_from([None, "none", "each", "all"])),
             amp_scale=draw(st.sampled_from([None, None, 0.25, 3.0, 0.0])), pos=draw(st.booleans()), given=draw(st.booleans()), color=draw(st.booleans()), drift=draw(st.sampled_from([0.0, 2.0])), dead=draw(st.sampled_from([None, None, None, 0, 1])))
    return c


@P.check(case_waterfall, 130)
def waterfall(c, r):
    """Every trace is drawn at its own position, scaled as asked, against its own time samples."""
    amps = array_amps(c) * np.arange(1, len(c["xs"]) + 1)[:, None] + c["drift"] * c.get("scale", 1.0) * np.arange(c["n"])
    if c["dead"] is not None:
        amps[c["dead"]] = 0.0                            # a dead channel is drawn as a straight line
    arr = make_array(c, amps=amps)
    before = [state_of(s) for s in arr]
    kw = {k: v for k, v in (("time_ax", c["axis"]), ("amplitude_detrend", c["detrend"]), ("amplitude_normalization", c["norm"]), ("amplitude_scale", c["amp_scale"])) if v is not None}
    if c["pos"]:
        kw["position_normalization"] = True
    pk = {"color": "r", "label": "trace"}
    if c["color"]:
        kw["plot_kwargs"] = pk
    if c["given"]:
        _, ax = plt.subplots()
        ensure(arr.waterfall(ax=ax, **kw) is None, "axes given, yet something is returned")
    else:
        fig, ax = arr.waterfall(**kw)
    n = c["n"]
    k = np.arange(n) - (n - 1) / 2
    data = [a - a.mean() - k * (k @ a) / (k @ k) if c["detrend"] in (None, True) else a for a in amps]
    norm = c["norm"] or "each"
    if norm == "each":
        data = [a / np.max(np.abs(a)) if a.any() else a for a in data]
    elif norm == "all":
        data = [a / np.max(np.abs(data)) for a in data]
    xs = np.array(c["xs"]) - (c["xs"][0] if c["pos"] else 0.0)
    scale = c["amp_scale"] if c["amp_scale"] is not None else (xs[-1] - xs[0]) / (len(xs) - 1) / 2
    t = (np.arange(n) - c["pre"]) * c["dt"]
    lines = ax.get_lines()
    ensure(len(lines) == len(xs), "one line per sensor", n=len(lines))
    for line, x, a in zip(lines, xs, data):
        dist, time = (line.get_ydata(), line.get_xdata()) if c["axis"] == "x" else (line.get_xdata(), line.get_ydata())
        ensure_close(np.array(time), t, "times of a trace", rtol=1e-9)
        ensure_close(np.array(dist) - x, scale * a, f"trace at {x}", rtol=1e-8, atol=1e-10 * max(1, abs(x)))
        if c["color"]:
            ensure(line.get_color() == "r", "style asked for")
    tlim, dlim = (ax.get_xlim(), ax.get_ylim()) if c["axis"] == "x" else (ax.get_ylim()[::-1], ax.get_xlim())
    ensure_close(np.array(tlim), np.array([t[0], t[-1]]), "limits of the time axis")
    ensure(dlim[0] < xs[0] and dlim[1] > xs[-1], "all sensors are in view", dlim=dlim)
    tl, dl = (ax.get_xlabel(), ax.get_ylabel()) if c["axis"] == "x" else (ax.get_ylabel(), ax.get_xlabel())
    ensure("Time" in tl and "Distance" in dl, "axis labels", time=tl, distance=dl)
    r.nt(c["pos"] or c["axis"] == "x" or norm != "each" or c["amp_scale"] is not None or c["detrend"] is False)
    r.label(f"time on {c['axis']}", norm)
    ensure(pk == {"color": "r", "label": "trace"}, "drawing changed the styles given")
    for s, b in zip(arr, before):
        ensure_state(b, state_of(s), "drawing changed a sensor")


@st.composite
def case_schematic(draw):
    c = draw(st_array(min_ch=2, max_ch=7, min_n=4, max_n=8, ys=True))
    c.update(given=draw(st.booleans()), color=draw(st.booleans()))
    return c


@P.check(case_schematic, 60)
def schematic(c, r):
    """The schematic shows every sensor and the source where they are and states number and spacing."""
    arr = make_array(c)
    kw = {"sensor_kwargs": {"color": "r"}, "source_kwargs": {"color": "g"}} if c["color"] else {}
    if c["given"]:
        _, ax = plt.subplots()
        ensure(arr.plot(ax=ax, **kw) is None, "axes given, yet something is returned")
    else:
        fig, ax = arr.plot(**kw)
    sens, src = sorted(ax.get_lines(), key=lambda q: q.get_label() != "Sensor")     # in any order of drawing
    ensure_close(np.array(sens.get_xydata()), np.array([c["xs"], c["ys"]]).T, "sensors shown")
    ensure_close(np.array(src.get_xydata()), np.array([[c["src"], c["sy"]]]), "source shown")
    text = " ".join(q.get_text() for q in ax.texts)
    nums = [float(q) for q in re.findall(r"-?\d+\.?\d*", text)]
    gaps = np.diff(c["xs"])
    want = [len(c["xs"])] + ([gaps[0]] if np.ptp(gaps) == 0 else []) + [round(c["src"], 2)]
    r.nt(np.ptp(gaps) == 0 or any(c["ys"]))
    ensure_close(np.array(nums), np.array(want, float), f"numbers stated in {text!r}")
    (y0, y1) = ax.get_ylim()
    ensure(y0 <= min(c["ys"] + [c["sy"]]) and y1 >= max(c["ys"] + [c["sy"]]), "everything is in view")


@st.composite
def case_image(draw):
    nv, nf = draw(st.integers(2, 12)), sized(draw, 2, 8, (64, 260, 260), 6)
    return {"nv": nv, "nf": nf, "seed": draw(seeds), "complex": draw(st.booleans()), "by": draw(st.sampled_from([None, "none", "absolute-maximum", "frequency-maximum"])),
            "peaks": draw(st.sampled_from([None, "none", "frequency-maximum"])), "near": draw(st.sampled_from([None, None, 1, 2, 0.5])), "given": draw(st.sampled_from(["new", "ax", "ax+cax"])),
            "raster": draw(st.booleans()), "arr": draw(st_array(min_ch=2, max_ch=5, min_n=4, max_n=6)), "scale": draw(st.sampled_from([1.0, 1e-6, 1e6])), "twice": draw(st.booleans()),
            "kw": draw(st.booleans()), "bar": draw(st.sampled_from([None, None, {"orientation": "horizontal"}, {"ticks": [0.0, 0.25]}, {"label": "power"}]))}


@P.check(case_image, 90)
def image(c, r):
    """The image drawn is the normalised magnitude on its own axes, with the peak of each frequency and the near-field line on top."""
    f, v = 5.0 + 2.0 * np.arange(c["nf"]), 100.0 + 30.0 * np.arange(c["nv"])
    m = (1.2 + noise(c["nv"] * c["nf"], c["seed"])).reshape(c["nv"], c["nf"]) * c["scale"]
    ph = np.exp(1j * 3 * noise(c["nv"] * c["nf"], c["seed"] + 1)).reshape(m.shape)
    w = (FDBF if c["complex"] else PhaseShift)(f.copy(), v.copy(), (m * ph) if c["complex"] else m.copy())
    arr = make_array(c["arr"])
    w.array = arr
    by = c["by"] or "frequency-maximum"
    want = {"none": m, "absolute-maximum": m / m.max(), "frequency-maximum": m / m.max(axis=0)}[by]
    seen = []
    real = matplotlib.axes.Axes.contourf

    def spy(self, *a, **k):
        seen.append((self, a))
        return real(self, *a, **k)

    kw = {k: q for k, q in (("normalization", c["by"]), ("peaks", c["peaks"]), ("nearfield", c["near"])) if q is not None}
    if c["raster"]:
        kw["rasterize"] = True
    if c["kw"]:
        kw["peak_kwargs"] = {"color": "m"}
    if c["bar"]:
        kw["colorbar_kwargs"] = dict(c["bar"])
    if c["twice"]:
        w.plot(normalization="absolute-maximum")
    bars = []
    realbar = matplotlib.figure.Figure.colorbar

    def spybar(self, *a, **k):
        bars.append(realbar(self, *a, **k))
        return bars[-1]

    with mock.patch.object(matplotlib.axes.Axes, "contourf", spy), mock.patch.object(matplotlib.figure.Figure, "colorbar", spybar):
        if c["given"] == "new":
            fig, ax = w.plot(**kw)
        else:
            fig, (ax, cax) = plt.subplots(ncols=2)
            ensure(w.plot(fig=fig, ax=ax, **({"cax": cax} if c["given"] == "ax+cax" else {}), **kw) is None, "axes given, yet something is returned")
    r.nt(c["by"] in ("none", "absolute-maximum") or c["near"] or c["peaks"] == "none" or c["twice"])
    r.label(by, c["given"], "raster" if c["raster"] else "vector")
    if seen:                                             # how the image is drawn is up to the code; if by contours, check what they were given
        (a_ax, a), = seen
        ensure(a_ax is ax and len(a) >= 3, "image drawn on the axes")
        ensure_close(np.array(a[0]), f, "frequencies of the image")
        ensure_close(np.array(a[1]), v, "velocities of the image")
        ensure_close(np.array(a[2]), want, "power shown", rtol=1e-9)
    for bar in bars:                                     # likewise
        b = c["bar"] or {}
        ensure(kw.get("colorbar_kwargs") == c["bar"], "drawing changed the options given")
        ensure(bar.orientation == b.get("orientation", "vertical"), "orientation of the colour bar")
        ensure("ticks" not in b or np.allclose(bar.get_ticks(), b["ticks"]), "ticks of the colour bar", got=bar.get_ticks())
        ensure("label" not in b or b["label"] in (bar.ax.get_ylabel(), bar.ax.get_xlabel()), "label of the colour bar")
        ensure(c["given"] != "ax+cax" or bar.ax is cax, "axes of the colour bar")
    ensure_close(np.array(ax.get_xlim()), np.array([f[0], f[-1]]), "frequency range in view")
    ensure_close(np.array(ax.get_ylim()), np.array([v[0], v[-1]]), "velocity range in view")
    lines = sorted(ax.get_lines(), key=lambda q: q.get_marker() in (None, "None", ""))  # peaks are markers, in any order of drawing
    if c["peaks"] != "none":
        pk = lines.pop(0)
        ensure_close(np.array(pk.get_xdata()), f, "frequencies of the peaks shown")
        ensure_close(np.array(pk.get_ydata()), v[np.argmax(m, axis=0)], "velocities of the peaks shown")
        if c["kw"]:
            ensure(pk.get_color() == "m", "style of the peaks")
    if c["near"] is not None:
        nf = lines.pop(0)
        d = np.mean([abs(x - c["arr"]["src"]) for x in c["arr"]["xs"]])
        x, y = np.array(nf.get_xdata()), np.array(nf.get_ydata())
        ensure_close(y, x * d / c["near"], "near-field line", rtol=1e-9)
        ensure(abs(x.min() - f[0]) < 1e-9 and abs(x.max() - f[-1]) < 1e-9, "extent of the near-field line")
    ensure(not lines, "nothing else is drawn")
    ensure(np.array_equal(w.frequencies, f) and np.array_equal(w.velocities, v), "drawing changed the axes of the image")
    w.normalize("none")
    ensure_close(np.abs(w.power), m, "the power is recovered after drawing", rtol=1e-9)


@st.composite
def case_snr(draw):
    return {"n": draw(st.integers(2, 20)), "seed": draw(seeds), "none": draw(st.sampled_from([False, False, True])), "given": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 30.0, 1e3, 1e6, 1e-3]))}


@P.check(case_snr, 40)
def snr_plot(c, r):
    """The signal-to-noise ratio is drawn against its own frequencies; without one nothing is drawn."""
    w = PhaseShift(np.array([5.0, 6.0]), np.array([100.0, 200.0]), np.ones((2, 2)))
    fig, ax = plt.subplots()
    if c["none"]:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            out = w.plot_snr(ax=ax) if c["given"] else w.plot_snr()
        ensure(out is None and not ax.get_lines() and len(rec) >= 1, "no ratio, yet drawn, or the user is not told")
        return
    f, s = 3.0 + np.arange(c["n"]), c["scale"] * (2 + noise(c["n"], c["seed"]))
    w.snr, w.snr_frequencies = s.copy(), f.copy()
    if c["given"]:
        ensure(w.plot_snr(ax=ax) is None, "axes given, yet something is returned")
    else:
        fig, ax = w.plot_snr()
    r.nt(True)
    (line,) = ax.get_lines()
    ensure_close(np.array(line.get_xydata()), np.array([f, s]).T, "ratio shown")


@st.composite
def case_stats(draw):
    n = draw(st.integers(1, 8))
    return {"n": n, "seed": draw(seeds), "spread": draw(st.sampled_from([1.0, 30.0, 400.0])), "kw": draw(st.sampled_from([None, {"color": "g", "capsize": 0}]))}


@P.check(case_stats, 30)
def statistics_plot(c, r):
    """Means are drawn at their abscissa with bars of one standard deviation on either side."""
    x, m, s = 5.0 + np.arange(c["n"]), 200 + noise(c["n"], c["seed"]), c["spread"] * (1.5 + np.abs(noise(c["n"], c["seed"] + 1)))
    fig, ax = plt.subplots()
    PeaksSuite.plot_statistics(ax, x, m, s, errorbar_kwargs=c["kw"])
    r.nt(c["n"] > 1)
    (cont,) = ax.containers
    ensure_close(np.array(cont.lines[0].get_xydata()), np.array([x, m]).T, "means shown")
    bars = np.array([b for b in cont.lines[2][0].get_segments()])
    ensure_close(bars, np.array([[[a, b - d], [a, b + d]] for a, b, d in zip(x, m, s)]), "bars shown")
