import props.c16_json as c16
from lib import *
from swprocess.array1d import Array1DwSource
from swprocess.source import SourceWithSignal

P = Property("C24", rule="Recordings, sensors and arrays after histories of 0-4 operations (trim past the trigger, pad, stack, detrend, taper, mute, offsets) copied by every route, then "
             "0-4 operations on either side; pairs of objects with zero or one drawn difference; non-trivial = the original was trimmed or padded before copying and one "
             "side was changed afterwards, or the pair differs.",
             assumptions=["equality tolerates rounding (relative 1e-5, absolute 1e-8) of samples and peaks, as documented by numpy.allclose"])

OPS = ["trim", "trim", "pad", "pad", "stack", "detrend", "taper", "write"]
st_op = st.tuples(st.sampled_from(OPS), st.floats(0, 1), st.floats(0, 1)).map(list)


def apply(s, op):
    """One operation on a series or a sensor."""
    kind, a, b = op
    m = s.nsamples
    if kind == "trim":
        if m < 6:
            return
        i = int(a * (m - 4))
        j = i + 3 + int(b * (m - 4 - i))
        t = np.array(s.time)
        s.trim(t[i], t[j])
    elif kind == "pad":
        s.zero_pad(1 / (s.dt * max(3, int(m * (0.4 + 1.5 * a)))))
    elif kind == "stack":
        kw = dict(nstacks=1 + int(3 * b))
        if isinstance(s, Sensor1C):
            o = Sensor1C.from_sensor1c(s)
        else:
            o = ActiveTimeSeries.from_activetimeseries(s)
        o.detrend()
        s.stack_append(o)
    elif kind == "detrend":
        s.detrend()
    elif kind == "taper":
        s.cosine_taper(0.2 + 0.5 * a)
    elif kind == "write" and m > 1:
        s.amplitude[int(a * (m - 1))] += 3.0


@st.composite
def case_copy(draw):
    n = draw(st.integers(8, 40))
    return {"n": n, "pre": draw(st.integers(0, 6)), "dt": draw(st.sampled_from(EXACT_DTS)), "seed": draw(seeds), "nstacks": draw(st.integers(1, 4)),
            "before": draw(st.lists(st_op, max_size=4)), "after": draw(st.lists(st_op, max_size=4)), "side": draw(st.sampled_from(["copy", "original"])),
            "route": draw(st.sampled_from(["series", "sensor", "series to sensor", "cross", "array", "array", "pilot array"])), "xyz": draw(st.lists(st.integers(-40, 40).map(lambda k: k / 4), min_size=3, max_size=3))}


def array_state(a):
    signal = [a.source.dt] + np.asarray(a.source.amplitude).ravel().tolist() if hasattr(a.source, "amplitude") else []
    return [state_of(s) for s in a.sensors], [a.source.x, a.source.y, a.source.z] + signal


def ensure_array(before, after, msg):
    ensure(before[1] == after[1] and len(before[0]) == len(after[0]), msg + ": source or sensors")
    for p, q in zip(before[0], after[0]):
        ensure_state(p, q, msg)


@P.check(case_copy, 1200)
def copies(c, r):
    """A copy has the same observable state, and neither side shows the other's later changes."""
    delay = -c["pre"] * c["dt"]
    x, y, z = c["xyz"]
    r.nt(any(o[0] in ("trim", "pad") for o in c["before"]) and c["after"])
    r.label(c["route"], "after trim or pad" if any(o[0] in ("trim", "pad") for o in c["before"]) else "fresh")
    data = noise(c["n"], c["seed"])
    if c["route"] in ("array", "pilot array"):
        raw = [noise(c["n"], c["seed"] * 4 + k) for k in range(3)]
        a = Array1D([Sensor1C(raw[k], c["dt"], x + 2 * k, y, z, nstacks=c["nstacks"], delay=delay) for k in range(3)], Source(x - 7.5, y, z))
        if c["route"] == "pilot array":
            sweep = noise(max(4, c["n"] // 2), c["seed"] + 50)
            a = Array1DwSource(a.sensors, SourceWithSignal(x - 7.5, y, z, sweep, c["dt"]))
            raw.append(sweep)
            if c["seed"] % 2:
                a.source.trim(0, (len(sweep) - 2) * c["dt"])
            if c["seed"] % 5 < 2:
                ensure_array(array_state(a), array_state(Array1D.from_array1d(a)), "the copy as a plain array differs")
        for op in c["before"]:
            for s in a.sensors:
                apply(s, op)
        if c["seed"] % 3 == 0:
            a.trim_offsets(8.0, 100.0)
        before = array_state(a)
        b = type(a).from_array1d(a)
        ensure_array(before, array_state(a), "copying changed the array")
        ensure_array(before, array_state(b), "the copy differs")
        ensure(a == b and b == a, "the copy is not equal to the original")
        ensure(np.array_equal(a.timeseriesmatrix(), b.timeseriesmatrix()) and list(a.offsets) == list(b.offsets), "the copy's views differ")
        mine, other = (b, a) if c["side"] == "copy" else (a, b)
        for op in c["after"]:
            for s in mine.sensors:
                apply(s, op)
        if c["route"] == "pilot array" and c["after"]:
            for op in c["after"]:
                if op[0] in ("write", "detrend", "taper"):
                    apply(mine.source, op)
            if c["seed"] % 4 < 2:
                mine.source.trim(0, c["dt"])
        if c["after"] and mine.nchannels > 1:
            keep = mine.offsets[0] + 0.5
            mine.trim_offsets(0, keep)
        ensure_array(before, array_state(other), "changing one side shows in the other")
        for d in raw:
            d[:] = 1e9
        ensure_array(before, array_state(other), "changing the caller's data shows in the array")
        return
    if c["route"] in ("series", "series to sensor", "cross"):
        o = ActiveTimeSeries(data, c["dt"], nstacks=c["nstacks"], delay=delay)
    else:
        o = Sensor1C(data, c["dt"], x, y, z, nstacks=c["nstacks"], delay=delay)
    plain = Sensor1C(data, c["dt"], x, y, z) if isinstance(o, Sensor1C) else ActiveTimeSeries(data, c["dt"])
    ensure((plain.nstacks, plain.delay) == (1, 0), "stacks and delay when none are given")
    for op in c["before"]:
        apply(o, op)
    before = state_of(o)
    if c["route"] == "series":
        k = ActiveTimeSeries.from_activetimeseries(o)
    elif c["route"] == "sensor":
        k = Sensor1C.from_sensor1c(o)
    elif c["route"] == "series to sensor":
        k = Sensor1C.from_activetimeseries(o, x, y, z)
    else:
        p = ActiveTimeSeries.from_activetimeseries(o)
        pb = state_of(p)
        if o.nsamples > 1 and np.any(np.asarray(o.amplitude)):
            ActiveTimeSeries.from_cross_stack(o, p)
            ensure_state(before, state_of(o), "stacking after correlation changed its first input")
            ensure_state(pb, state_of(p), "stacking after correlation changed its second input")
        k = p
    ensure_state(before, state_of(o), "copying changed the original")
    got = state_of(k)
    ensure_state({**before, **({"x": x, "y": y, "z": z} if c["route"] == "series to sensor" else {})}, got, "the copy differs")
    if c["route"] != "series to sensor":
        ensure(k == o and o == k, "the copy is not equal to the original")
    data[:] = 1e9
    ensure_state(before, state_of(o), "changing the caller's data shows in the recording")
    mine, other, ref = (k, o, before) if c["side"] == "copy" else (o, k, got)
    for op in c["after"]:
        apply(mine, op)
    ensure_state(ref, state_of(other), "changing one side shows in the other")


DIFF = {"series": ["none", "amp", "swapped", "dt", "nstacks", "delay", "nsamples", "multiple", "type"], "sensor": ["none", "amp", "dt", "nstacks", "delay", "nsamples", "multiple", "x", "y", "z", "type"],
        "pilot": ["none", "amp", "dt", "nsamples", "x", "y", "z", "silent", "type"], "pilot array": ["none", "pilot", "silent", "source x", "amp", "dt", "dropped", "type"], "source": ["none", "x", "y", "z", "type"], "array": ["none", "source x", "source y", "source z", "amp", "x", "y", "z", "nstacks", "dt", "delay", "nsamples", "multiple", "dropped", "type", "order"],
        "peaks": ["none", "id", "frequency", "velocity", "swapped", "extra", "attr", "renamed", "dropped", "rejected", "type", "appended", "found", "lost"], "suite": ["none", "order", "dropped", "member", "type"]}


@st.composite
def case_pair(draw):
    what = draw(st.sampled_from(sorted(DIFF)))
    c = {"what": what, "diff": draw(st.sampled_from(DIFF[what] + ["none"])), "seed": draw(seeds), "n": sized(draw, 3, 20, (300, 1200), 20), "where": draw(st.floats(0, 0.999)), "by": draw(st.sampled_from([0.01, -0.3, 5.0, 100.0])),
         "xyz": draw(st.lists(st.integers(-40, 40).map(lambda k: k / 4), min_size=3, max_size=3)), "nstacks": draw(st.integers(1, 4)), "dt": draw(st.sampled_from(EXACT_DTS)),
         "pre": draw(st.integers(0, 4)), "nch": draw(st.integers(2, 5))}
    far = draw(st.sampled_from([[0, 0, 0], [0, 0, 0], [500000, 4000000, 1000], [-1e7, 1e7, 0]]))       # local or projected coordinates
    c["xyz"] = [q + f for q, f in zip(c["xyz"], far)]
    c["at"] = draw(st.sampled_from(["last", "first", "any"]))
    c["loud"] = draw(st.integers(0, 2)) == 2
    if what in ("peaks", "suite"):
        c["p"] = draw(c16.st_peaks(min_col=1))
        c["nsets"] = draw(st.integers(2, 4))
        c["rows"] = draw(st.sampled_from([1, 1, 2, 3]))
    return c


def index(c, n):
    return {"last": n - 1, "first": 0, "any": int(c["where"] * n)}[c["at"]]


def build_peaks(c, change=None, ident=None, seed=0):
    """A simple set: n frequencies (optionally several rows), velocity, two attributes; `change` alters it."""
    n = c["n"]
    sh = (n,) if c["rows"] == 1 else (c["rows"], n)
    size = int(np.prod(sh))
    f = np.tile(np.linspace(5, 30, n), c["rows"])
    v = 300 + 100 * noise(size, c["seed"] + seed)
    kw = {"azimuth": 180 + 100 * noise(size, c["seed"] + seed + 1), "power": 5 + noise(size, c["seed"] + seed + 2),
          "tiny": 1e-4 * noise(size, c["seed"] + seed + 3)}
    k = index(c, size)
    kw["power"][size // 2] = np.nan
    if c["seed"] % 2 and k != 0:
        v[0] = np.nan
    ident = "a" if ident is None else ident
    if c["diff"] == "swapped":                           # the same values at other frequencies
        v[[k, k - 1]] = [777.0, 250.0][::-1 if change == "swapped" else 1]
    if change == "id":
        ident += "x"
    elif change == "frequency":
        f[k] += c["by"] + 5 * (c["by"] < 0)
    elif change == "velocity":
        v[k] += c["by"]
    elif change == "extra":
        if c["seed"] % 3:
            kw["azimuth"][k] += c["by"]
        else:
            kw["tiny"][k] += 1e-5 * np.clip(c["by"], -1, 1)
    elif change == "found":                              # a value which is missing in the other set
        kw["power"][size // 2] = [0.0, 5.0, np.inf][c["seed"] % 3]
    elif change == "lost":
        kw["azimuth"][k] = np.nan
    elif change == "attr":
        kw["noise"] = np.ones(size)
    elif change == "renamed":
        kw["noise"] = kw.pop("azimuth")
    if change in ("dropped", "appended") and c["rows"] == 1:
        if change == "dropped":
            f, v, kw, sh = np.delete(f, k), np.delete(v, k), {q: np.delete(w, k) for q, w in kw.items()}, (n - 1,)
        else:
            f, v, kw, sh = np.append(f, f[-1]), np.append(v, v[-1]), {q: np.append(w, w[-1]) for q, w in kw.items()}, (n + 1,)
    elif change in ("dropped", "appended"):
        v[k] = np.nan
    p = Peaks(f.reshape(sh), v.reshape(sh), identifier=ident, **{q: w.reshape(sh) for q, w in kw.items()})
    if change == "rejected":
        good = np.sort(p.frequency)
        p.reject_limits_outside("frequency", (None, good[-1] - 1e-3))
    return p


@P.check(case_pair, 1500)
def equality(c, r):
    """Equal content compares equal, any single difference compares unequal, in both directions and without failing."""
    what, diff, n = c["what"], c["diff"], c["n"]
    x, y, z = c["xyz"]
    r.nt(diff != "none")
    r.label(f"{what} {diff}")

    def series(change=None, cls=None, dx=0.0, seed=0):
        amp = 10 * noise((n + (change == "nsamples")) * (2 if c["diff"] == "multiple" else 1), c["seed"] + seed)
        amp[index(c, n) - 1] += 1e9 * c["loud"]              # one sample much larger than the one which differs
        if change == "amp":
            amp[index(c, n)] += c["by"]
        elif change == "swapped":
            amp[[index(c, n), index(c, n) - 1]] = amp[[index(c, n) - 1, index(c, n)]]
        kw = {"dt": c["dt"] * (2 if change == "dt" else 1), "nstacks": c["nstacks"] + (change == "nstacks"), "delay": -(c["pre"] + (change == "delay")) * c["dt"]}
        if (cls or what) == "series":
            out = ActiveTimeSeries(amp, **kw)
        else:
            out = Sensor1C(amp, x=x + dx + c["by"] * (change == "x"), y=y + c["by"] * (change == "y"), z=z + c["by"] * (change == "z"), **kw)
        if change == "multiple":
            out.zero_pad(1 / (len(amp) // 2 * kw["dt"]))      # half the samples would do: nothing is appended, only the reported step changes
            ensure(out.multiple == 2 and out.nsamples == len(amp), "harness: padding", got=(out.multiple, out.nsamples))
        return out

    def pilot(change=None):
        if change == "silent":
            return Source(x, y, z)
        amp = 10 * noise(n + (change == "nsamples"), c["seed"] + 77)
        if change in ("amp", "pilot"):
            amp[index(c, n)] += c["by"]
        return SourceWithSignal(x + c["by"] * (change in ("x", "source x")), y + c["by"] * (change == "y"), z + c["by"] * (change == "z"), amp, c["dt"] * (2 if change == "dt" else 1))

    def pilot_array(change=None):
        k = index(c, c["nch"])
        s = [series("amp" if i == k and change == "amp" else "dt" if change == "dt" else None, "sensor", dx=200 + 10.0 * i, seed=i) for i in range(c["nch"])]
        if change == "dropped":
            s.pop(k)
        return Array1DwSource(s, pilot(change if change in ("pilot", "silent", "source x") else None))

    def array(change=None):
        k = index(c, c["nch"])
        s = [series(change if change in ("nstacks", "dt", "delay", "nsamples", "multiple") or i == k and change in ("amp", "y", "z") else None, "sensor", dx=10.0 * i + (1.0 if change == "x" and i == k else 0), seed=i) for i in range(c["nch"])]
        if change == "dropped":
            s.pop(k)
        if change == "order":
            s = s[::-1]
        src = {q: (c["by"] if change == f"source {q}" else 0) for q in "xyz"}
        return Array1D(s, Source(x - 50 + src["x"], y + src["y"], z + src["z"]))

    def suite(change=None):
        ps = [build_peaks(c, "velocity" if change == "member" and i == index(c, c["nsets"]) else None, f"s{i}", seed=9 * i) for i in range(c["nsets"])]
        if change == "order":
            ps = ps[::-1]
        if change == "dropped":
            ps.pop(index(c, len(ps)))
        return PeaksSuite.from_peaks(ps)

    make = {"series": series, "sensor": series, "array": array, "peaks": lambda ch=None: build_peaks(c, ch), "suite": suite, "pilot": pilot, "pilot array": pilot_array,
            "source": lambda ch=None: Source(x + c["by"] * (ch == "x"), y + c["by"] * (ch == "y"), z + c["by"] * (ch == "z"))}[what]
    a = make()
    if diff == "type":
        for other in (None, 3, "text", [], {}, object(), Source(x, y, z) if what != "source" else 1.5, pilot() if what != "pilot" else (1.5, 2), build_peaks({**c, "rows": 1}) if what not in ("peaks",) else (1,), series(cls="series") if what != "series" else 0):
            ensure((a == other) is False, "compares equal to something else", kind=type(other).__name__)
            ensure((other == a) is False, "something else compares equal", kind=type(other).__name__)
            ensure(a != other, "not unequal to something else", kind=type(other).__name__)
        return
    b = make(diff if diff != "none" else None)
    same = diff == "none" or (what == "array" and diff == "order")
    if what == "peaks" and diff == "rejected" and not len(a.frequency):
        return
    ensure(bool(a == b) is same and bool(b == a) is same, f"{what} with difference: {diff}", equal=bool(a == b), reverse=bool(b == a))
    ensure(bool(a != b) is (not same), "inequality disagrees with equality")
    ensure(bool(a == a), "not equal to itself")
    if what in ("source", "pilot"):
        k = type(a).from_source(a)
        ensure(type(k) is type(a) and k == a and a == k, "the copy is not equal to the original")
        ensure((k == b) is same, "the copy compares differently from the original")
        if what == "pilot":
            ensure(k.dt == a.dt and np.array_equal(k.amplitude, a.amplitude), "signal of the copy")
            k.trim(0, k.dt)
            ensure(a.nsamples == n, "changing the copy shows in the original")
