from lib import *
from scipy import signal as sps

P = Property("C01", rule="Sensor lists drawn in arbitrary order (2-8 sensors, regular or irregular spacing on a quarter-metre grid, "
             "source on either side or inside); non-trivial = the supply order differs from the position order.",
             assumptions=["positions are finite and multiples of 0.25 m, traces are not identically zero"])


def ref_matrix(amps, detrend, normalize):
    out = []
    for a in amps:
        a = np.array(a, dtype=float)
        if detrend:
            k = np.arange(len(a), dtype=float)
            k -= k.mean()
            a = a - a.mean() - k * (np.dot(k, a) / np.dot(k, k))
        if normalize == "each":
            a = a / (np.abs(a).max() or 1.0)              # a dead trace stays as it is
        out.append(a)
    out = np.array(out)
    if normalize == "all":
        out = out / (np.abs(out).max() or 1.0)
    return out


@st.composite
def case_geometry(draw):
    c = draw(st_array(ys=True, max_pre=4, big=True))
    c["nstacks"] = draw(st.integers(1, 9))
    if draw(st.booleans()):
        c["src"] = draw(st_source_x(c["xs"], outside=False))
    return c


@P.check(case_geometry, 700)
def geometry(c, r):
    """Every view of the array follows the sorted positions."""
    xs, src, order = c["xs"], c["src"], c["order"]
    r.nt(order != sorted(order))
    r.label("source right" if src > xs[-1] else "source left" if src < xs[0] else "inside")
    a = make_array(c)
    amps = array_amps(c)
    ensure(list(a.position()) == xs, "positions are not the sorted positions", got=a.position())
    ensure(close(a.position(normalize=True), np.array(xs) - xs[0]), "normalised positions do not start at zero")
    ensure(close(a.offsets, [abs(src - x) for x in xs]), "offsets are not the absolute source-receiver distances", got=a.offsets)
    ensure(a.nchannels == len(xs), "channel count")
    gaps = np.diff(xs)
    ensure(close(a.kres, np.pi / gaps.min()), "resolution wavenumber")
    ensure(close(a.array_center_distance, np.mean([abs(src - x) for x in xs])), "mean offset")
    if gaps.max() == gaps.min():
        ensure(close(a.spacing, gaps[0]), "spacing", got=a.spacing)
        r.label("regular")
        cm = make_array({**c, "xs": [x * [1, 20][c["seed"] % 2] + (0.02, 0.0, 0.07)[i % 3] for i, x in enumerate(xs)]}) if len(xs) > 2 else None
    else:
        cm = a
    if cm is not None:                                   # irregular by a quarter of a metre or more, or by several centimetres
        with must_raise(ValueError, msg="spacing of an irregular array"):
            cm.spacing
    ensure(close(a.timeseriesmatrix(), amps), "trace matrix rows do not follow the positions")
    for i in range(len(xs)):
        s = a[i]
        ensure(s.x == xs[i] and s.y == c["ys"][i] and close(s.amplitude, amps[i]), "sensor by index", i=i)
        ensure(s.nstacks == c["nstacks"] and s.dt == c["dt"] and s.delay == -c["pre"] * c["dt"], "sensor metadata", i=i)
        ensure(close(s.time, (np.arange(c["n"]) - c["pre"]) * c["dt"]), "time axis", i=i)
        ensure(s is a.sensors[i], "index and list disagree")
    ensure(a.source.x == src and a.source.y == c["sy"], "source position")
    u = [0.3048, 1.0003, 0.00123, 1000.1][c["seed"] // 2 % 4]        # feet, a stretched line, a model in the laboratory, an array of kilometres
    us = [x * u for x in xs]
    b = make_array(c, xs=us, src=src * u)
    ensure(list(b.position()) == us, "positions in another unit", got=b.position(), want=us)
    ensure_close(b.position(normalize=True), np.array(us) - us[0], "normalised positions in another unit", rtol=1e-12)
    ensure_close(b.offsets, [abs(src * u - x) for x in us], "offsets in another unit", rtol=1e-12)
    ensure_close(b.kres, np.pi / np.diff(us).min(), "resolution wavenumber in another unit", rtol=1e-12)
    ensure_close(b.array_center_distance, np.mean([abs(src * u - x) for x in us]), "mean offset in another unit", rtol=1e-12)
    ensure_close(b.timeseriesmatrix(), amps, "trace matrix in another unit", rtol=0)


@st.composite
def case_matrix(draw):
    c = draw(st_array(min_n=12, big=True))
    c["scale"] = draw(st.sampled_from([1.0, 250.0, 1e-3]))
    c["detrend"] = draw(st.booleans())
    c["normalize"] = draw(st.sampled_from(["none", "each", "all"]))
    c["offset"] = draw(st.integers(-5, 5))
    c["dead"] = draw(st.sampled_from([[], [], [], [0], [len(c["xs"]) - 1], list(range(len(c["xs"])))]))
    return c


@P.check(case_matrix, 500)
def matrix(c, r):
    """The trace matrix is the (optionally detrended / normalised) traces, and asking for it changes nothing."""
    amps = array_amps(c) + c["offset"] * c["scale"]
    amps[c["dead"]] = 0.0                                # dead channels
    r.nt(c["order"] != sorted(c["order"]))
    r.label(c["normalize"], f"detrend={c['detrend']}")
    a = make_array(c, amps=amps)
    got = a.timeseriesmatrix(detrend=c["detrend"], normalize=c["normalize"])
    ensure_close(got, ref_matrix(amps, c["detrend"], c["normalize"]), "trace matrix", rtol=1e-8)
    got[:] = 7.0
    ensure_close(a.timeseriesmatrix(), amps, "the returned matrix aliases, or the call modified, the recordings")


@st.composite
def case_two_orders(draw):
    c = draw(st_array(min_n=16, max_n=32, max_ch=6))
    c["order2"] = list(draw(st.permutations(range(len(c["xs"])))))
    c["transform"] = draw(st.sampled_from(["phaseshift", "fdbf", "slantstack", "fk"]))
    return c


@P.check(case_two_orders, 250)
def supply_order(c, r):
    """Two supply orders give equal arrays and identical dispersion images."""
    from swprocess.register import WavefieldTransformRegistry as R
    import swprocess.wavefieldtransforms  # noqa: F401
    r.nt(c["order"] != c["order2"])
    r.label(c["transform"])
    a, b = make_array(c), make_array(c, order=c["order2"])
    ensure(a == b and b == a, "same sensors in another order make a different array")
    df = 1 / (c["n"] * c["dt"])
    s = settings_dict(transform=c["transform"], fmin=df, fmax=4 * df, vmin=1e5, vmax=1e6, nvel=3, weighting="none", steering="plane")["processing"]
    T = R.create_class(c["transform"])
    ta, tb = T.from_array(a, s), T.from_array(b, s)
    ensure_close(np.abs(ta.power), np.abs(tb.power), "dispersion image depends on supply order")
    ensure_close(ta.frequencies, tb.frequencies, "frequencies depend on supply order")


@st.composite
def case_refuse(draw):
    c = draw(st_array(min_ch=3, max_pre=4))
    k = len(c["xs"])
    i, j = draw(st.lists(st.integers(0, k - 1), min_size=2, max_size=2, unique=True))
    c["i"], c["j"] = i, j
    c["how"] = draw(st.sampled_from(["x", "dt", "nsamples", "nstacks", "delay"]))
    return c


@P.check(case_refuse, 500)
def refuse(c, r):
    """Shared positions and dissimilar recordings are refused wherever they sit in the list."""
    r.label(c["how"])
    r.nt()
    amps = array_amps(c)
    sensors = []
    for p in c["order"]:
        kw = dict(amplitude=amps[p], dt=c["dt"], x=c["xs"][p], y=0, z=0, nstacks=c["nstacks"], delay=-c["pre"] * c["dt"])
        if p == c["i"]:
            if c["how"] == "x":
                kw["x"] = c["xs"][c["j"]]
            elif c["how"] == "dt":
                kw["dt"] = c["dt"] * 2
            elif c["how"] == "nsamples":
                kw["amplitude"] = amps[p][:-1]
            elif c["how"] == "nstacks":
                kw["nstacks"] = c["nstacks"] + 1
            else:
                kw["delay"] = -(c["pre"] + 1) * c["dt"]
        sensors.append(Sensor1C(**kw))
    with must_raise(ValueError, msg=f"array with inconsistent {c['how']} was accepted"):
        Array1D(sensors, Source(c["src"], 0, 0))
