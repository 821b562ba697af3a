from lib import *
import struct
import obspy
from obspy.io.segy.segy import SEGYTraceHeader

P = Property("C07", rule="Trace headers with coordinate scalars from {0, +-1, +-10, .. +-10000}, integer coordinates, stack counts (0 included), "
             "delays and units, in SU and SEGY streams and in SEG2 files written byte by byte; non-trivial = x and y differ and the scalar is not +-1.",
             assumptions=["SEG2 files carry no y coordinates"])
SCALARS = [0, 1, -1, 10, -10, 100, -100, 1000, -1000, 10000, -10000]


@st.composite
def case_hdr(draw):
    k = draw(st.integers(1, 5))
    co = st.one_of(st.integers(-300, 300), st.integers(-200_000, 200_000))
    return {"fmt": draw(st.sampled_from(["SU", "SEGY"])), "sc": draw(st.sampled_from(SCALARS)),
            "gx": draw(st.lists(co, min_size=k, max_size=k, unique=True)), "gy": draw(st.lists(co, min_size=k, max_size=k)),
            "sx": draw(co), "sy": draw(co), "nst": draw(st.one_of(st.integers(0, 40), st.integers(0, 32767))), "delay": draw(st.one_of(st.integers(-900, 0), st.integers(-2100, -1000), st.integers(-32768, 0))),
            "units": draw(st.sampled_from([1, 1, 1, 0])), "n": draw(st.integers(2, 30)), "dt": draw(st.sampled_from([0.0005, 0.001, 0.002, 0.004])),
            "seed": draw(seeds), "mx": draw(st.sampled_from([[1, 0], [-1, 0], [2, -7], [0.5, 100]])), "my": draw(st.sampled_from([[1, 0], [-1, 3], [1, 10]]))}


def value(i, sc):
    """Scaled coordinate: positive scalars multiply, negative ones divide, zero means one."""
    if sc == 0:
        sc = 1
    return float(i * sc) if sc > 0 else i / -sc


def write_stream(c, fname, units=None):
    stream = obspy.Stream()
    amps = []
    for k in range(len(c["gx"])):
        a = np.asarray(noise(c["n"], c["seed"] + k, 100), np.float32)
        amps.append(a.astype(float))
        t = obspy.Trace(a)
        t.stats.delta = c["dt"]
        h = SEGYTraceHeader()
        h.scalar_to_be_applied_to_all_coordinates = c["sc"]
        h.source_coordinate_x, h.source_coordinate_y = c["sx"], c["sy"]
        h.group_coordinate_x, h.group_coordinate_y = c["gx"][k], c["gy"][k]
        h.number_of_horizontally_stacked_traces_yielding_this_trace = c["nst"]
        h.delay_recording_time = c["delay"]
        h.coordinate_units = c["units"] if units is None else units
        key = "su" if c["fmt"] == "SU" else "segy"
        t.stats[key] = {}
        t.stats[key].trace_header = h
        if c["fmt"] == "SU":
            t.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
        stream.append(t)
    kw = {"data_encoding": 5} if c["fmt"] == "SEGY" else {}
    stream.write(fname, format=c["fmt"], **kw)
    return amps


def same(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


@P.check(case_hdr, 500)
def su_and_segy(c, r):
    """Positions, stacks, delays and samples are what the headers say."""
    r.nt(c["gx"] != c["gy"] and abs(c["sc"]) > 1)
    r.label(c["fmt"], f"scalar {c['sc']}", f"units {c['units']}")
    amps = write_stream(c, "f.dat")
    (ax, bx), (ay, by) = c["mx"], c["my"]
    kw = {"obspy_read_kwargs": {"format": "SEGY", "unpack_trace_headers": False}} if c["fmt"] == "SEGY" else {"obspy_read_kwargs": {"format": "SU"}}
    a = Array1D.from_files("f.dat", map_x=lambda x: ax * x + bx, map_y=lambda y: ay * y + by, **kw)
    want = sorted((ax * value(g, c["sc"]) + bx, ay * value(h, c["sc"]) + by, i) for i, (g, h) in enumerate(zip(c["gx"], c["gy"])))
    ensure(a.nchannels == len(want), "number of channels")
    for s, (x, y, i) in zip(a.sensors, want):
        ensure(same(s.x, x), "receiver x", got=s.x, want=x)
        ensure(same(s.y, y), "receiver y", got=s.y, want=y)
        ensure(s.nstacks == max(1, c["nst"]), "number of stacks", got=s.nstacks)
        ensure(same(s.delay, c["delay"] / 1000), "delay", got=s.delay)
        ensure(same(s.dt, c["dt"]), "sampling interval", got=s.dt)
        ensure_close(s.amplitude, amps[i], "samples", rtol=0)
    ensure(same(a.source.x, ax * value(c["sx"], c["sc"]) + bx), "source x", got=a.source.x)
    ensure(same(a.source.y, ay * value(c["sy"], c["sc"]) + by), "source y", got=a.source.y)
    ensure(a.source.z == 0 and all(s.z == 0 for s in a.sensors), "elevations")


@P.check(case_hdr, 150)
def bad_units(c, r):
    """Angular or unknown coordinate units are refused."""
    r.nt()
    for u in (2, 3, 4):
        write_stream(c, f"f{u}.dat", units=u)
        with must_raise(ValueError, msg=f"coordinate units {u} accepted"):
            Array1D.from_files(f"f{u}.dat", obspy_read_kwargs={"format": c["fmt"]})


@P.check(case_hdr, 60)
def after_the_trigger(c, r):
    """A record which starts after the trigger is refused or read with its delay, never put at another time."""
    r.nt()
    c = {**c, "delay": min(1 - c["delay"], 32767)}
    write_stream(c, "f.dat")
    write_seg2("g.dat", [([("DELAY", f"{c['delay'] / 1000:.5f}"), ("RECEIVER_LOCATION", "1"), ("SAMPLE_INTERVAL", "0.001"), ("SOURCE_LOCATION", "5"), ("STACK", 1)], np.arange(4.0))])
    for name, kw in (("f.dat", {"obspy_read_kwargs": {"format": c["fmt"]}}), ("g.dat", {})):
        try:
            a = Array1D.from_files(name, **kw)
        except ValueError:
            continue
        ensure(all(same(s.delay, c["delay"] / 1000) for s in a.sensors), "delay", name=name, got=[s.delay for s in a.sensors], want=c["delay"] / 1000)


@P.check(case_hdr, 200)
def header_ignored(c, r):
    """Without header reading the caller's values are used; unidentifiable traces are refused."""
    r.nt()
    amps = write_stream(c, "f.dat")
    st_ = obspy.read("f.dat", format=c["fmt"])
    tr = st_[0]
    x, y, z, k, d = 3.25, -1.5, 2.0, c["nst"] + 1, c["delay"] / 1000
    s = Sensor1C.from_trace(tr, read_header=False, x=x, y=y, z=z, nstacks=k, delay=d)
    ensure((s.x, s.y, s.z, s.nstacks, s.delay) == (x, y, z, k, d) and same(s.dt, c["dt"]), "given metadata not used", got=state_of(s))
    ensure_close(s.amplitude, amps[0], "samples", rtol=0)
    given = {"x": x, "y": y, "z": z, "nstacks": k, "delay": d}
    given = {a: v for i, (a, v) in enumerate(given.items()) if (c["nst"] + i) % 2}
    s = Sensor1C.from_trace(tr, read_header=False, **given)
    want = {"x": 0, "y": 0, "z": 0, "nstacks": 1, "delay": 0, **given}
    ensure({a: getattr(s, a) for a in want} == want, "metadata not given", got=state_of(s), given=given)
    s = ActiveTimeSeries.from_trace(tr)
    ensure((s.nstacks, s.delay) == (1, 0), "stacks and delay of a series from a trace when none are given")
    s = Sensor1C.from_trace(tr, format=c["fmt"].lower())
    ensure(same(s.x, value(c["gx"][0], c["sc"])) and same(s.y, value(c["gy"][0], c["sc"])), "explicit format", got=(s.x, s.y))
    # a trace made in memory does not know its format: it is given
    bare, key = obspy.Trace(tr.data.copy()), c["fmt"].lower()
    bare.stats.delta = tr.stats.delta
    bare.stats[key] = tr.stats[key]
    (ax, bx), (ay, by) = c["mx"], c["my"]
    q = Sensor1C.from_trace(bare, format=c["fmt"], map_x=lambda v: ax * v + bx, map_y=lambda v: ay * v + by)
    ensure(same(q.x, ax * value(c["gx"][0], c["sc"]) + bx) and same(q.y, ay * value(c["gy"][0], c["sc"]) + by), "given format, position", got=(q.x, q.y))
    ensure(q.nstacks == max(1, c["nst"]) and same(q.delay, c["delay"] / 1000) and same(q.dt, c["dt"]), "given format, stacks, delay or sampling")
    ensure_close(q.amplitude, amps[0], "given format, samples", rtol=0)
    t = ActiveTimeSeries.from_trace(tr, nstacks=k, delay=d)
    ensure(t.nstacks == k and t.delay == d and same(t.dt, c["dt"]), "series from a trace")
    ensure_close(t.amplitude, amps[0], "samples", rtol=0)
    with must_raise(ValueError, msg="trace of unknown origin accepted"):
        Sensor1C.from_trace(obspy.Trace(np.zeros(4)))
    with must_raise(NotImplementedError, msg="unsupported format accepted"):
        Sensor1C.from_trace(tr, format="mseed")


# ---------------------------------------------------------------- SEG2
def _strings(items):
    out = b""
    for k, v in items:
        body = f"{k} {v}".encode() + b"\0"
        out += struct.pack("<H", len(body) + 2) + body
    out += struct.pack("<H", 0)
    return out


def write_seg2(fname, traces):
    """A minimal SEG2 revision 1 file: traces = [(header items, float32 samples)]."""
    n = len(traces)
    hdr = struct.pack("<HHHH", 0x3A55, 1, 4 * n, n) + b"\x01\x00\x00\x01\n\x00" + b"\0" * 18
    filestr = _strings([("ACQUISITION_DATE", "01/02/2020"), ("ACQUISITION_TIME", "10:11:12")])
    blocks = []
    for items, data in traces:
        strs = _strings(items)
        size = 32 + len(strs)
        size += -size % 4
        raw = np.asarray(data, "<f4").tobytes()
        b = struct.pack("<HHLLB", 0x4422, size, len(raw), len(data), 4) + b"\0" * 19 + strs
        blocks.append(b.ljust(size, b"\0") + raw)
    start = 32 + 4 * n + len(filestr)
    pad = -start % 4
    start += pad
    ptrs, pos = [], start
    for b in blocks:
        ptrs.append(pos)
        pos += len(b)
    with open(fname, "wb") as f:
        f.write(hdr + struct.pack(f"<{n}L", *ptrs) + filestr + b"\0" * pad + b"".join(blocks))


@st.composite
def case_seg2(draw):
    k = draw(st.integers(1, 5))
    return {"x": draw(st.lists(st.integers(-400, 400), min_size=k, max_size=k, unique=True)), "sx": draw(st.integers(-400, 400)),
            "q": draw(st.sampled_from([1, 2, 4, 10, 1000])), "stack": draw(st.one_of(st.integers(1, 40), st.integers(1, 100000))), "delay_ms": draw(st.one_of(st.integers(-900, 0), st.integers(-40000, 0), st.integers(-90000, 0).map(lambda k: k / 100))),
            "dt": draw(st.sampled_from([0.0005, 0.001, 0.002, 0.004, 0.000125, 0.00003125])), "n": draw(st.integers(2, 40)), "seed": draw(seeds),
            "mx": draw(st.sampled_from([[1, 0], [-1, 0], [2, -7], [0.5, 100]])), "by": draw(st.sampled_from([0, 3.5, -20]))}


def seg2_traces(c):
    amps = [np.asarray(noise(c["n"], c["seed"] + k, 100), np.float32) for k in range(len(c["x"]))]
    return amps, [([("DELAY", f"{c['delay_ms'] / 1000:.5f}"), ("RECEIVER_LOCATION", f"{x / c['q']:g}"), ("SAMPLE_INTERVAL", f"{c['dt']:g}"),
                    ("SOURCE_LOCATION", f"{c['sx'] / c['q']:g}"), ("STACK", c["stack"])], a) for x, a in zip(c["x"], amps)]


@P.check(case_seg2, 350)
def seg2(c, r):
    """SEG2 files: every header entry and sample arrives."""
    amps, traces = seg2_traces(c)
    write_seg2("f.dat", traces)
    try:
        import warnings as w
        with w.catch_warnings():
            w.simplefilter("ignore")
            probe = obspy.read("f.dat", format="SEG2")
    except Exception as e:
        raise HarnessError(f"harness wrote an unreadable SEG2 file: {e}")
    (ax, bx), by = c["mx"], c["by"]
    a = Array1D.from_files("f.dat", map_x=lambda x: ax * x + bx, map_y=lambda y: y + by)
    r.nt(len(c["x"]) > 1 and c["stack"] > 1)
    want = sorted((ax * x / c["q"] + bx, i) for i, x in enumerate(c["x"]))
    ensure(a.nchannels == len(want), "number of channels")
    for s, (x, i) in zip(a.sensors, want):
        ensure(same(s.x, x), "receiver position", got=s.x, want=x)
        ensure(same(s.y, by) and s.z == 0, "receiver y and z", got=(s.y, s.z))
        ensure(s.nstacks == c["stack"], "number of stacks", got=s.nstacks)
        ensure(same(s.delay, c["delay_ms"] / 1000), "delay", got=s.delay)
        ensure(same(s.dt, c["dt"]), "sampling interval", got=s.dt)
        ensure_close(s.amplitude, amps[i].astype(float), "samples", rtol=0)
    ensure(same(a.source.x, ax * c["sx"] / c["q"] + bx), "source position", got=a.source.x)
    t = ActiveTimeSeries.from_trace_seg2(probe[0])
    ensure(t.nstacks == c["stack"] and same(t.delay, c["delay_ms"] / 1000) and same(t.dt, c["dt"]), "series from a SEG2 trace")
    ensure_close(t.amplitude, amps[0].astype(float), "samples", rtol=0)
