from lib import *
from props.c07_headers import write_seg2, same

P = Property("C08", rule="1-4 shot files of one geometry (SU, SEGY or SEG2), traces stored in an independent order per file, different stack counts, "
             "affine maps including reversing ones; non-trivial = at least two files whose traces are stored in different orders.",
             assumptions=["all traces of one file share the stack count"])


@st.composite
def case_files(draw, min_files=1):
    k = sized(draw, 2, 5, (24, 48), 25)
    nf = draw(st.integers(min_files, 4)) if k > 5 else sized(draw, min_files, 4, (7, 12), 25)
    return {"fmt": draw(st.sampled_from(["SU", "SU", "SEGY", "SEG2"])), "x": draw(st.lists(st.integers(-90, 90), min_size=k, max_size=k, unique=True)),
            "y": draw(st.lists(st.integers(-9, 9), min_size=k, max_size=k)), "sx": draw(st.integers(-99, 99)), "sy": draw(st.integers(-9, 9)),
            "orders": [shuffled(draw, k) for _ in range(nf)], "nst": draw(st.lists(st.integers(1, 9), min_size=nf, max_size=nf)),
            "delay_ms": draw(st.integers(-20, 0)), "n": sized(draw, 4, 24, (500, 1000, 1500, 2000), 25), "dt": draw(st.sampled_from([0.001, 0.002])), "seed": draw(seeds),
            "mx": draw(st.sampled_from([[1, 0], [-1, 0], [-2, 7], [0.5, 100]])), "my": draw(st.sampled_from([[1, 0], [-1, 3]])),
            "perm": list(draw(st.permutations(range(nf)))), "again": draw(st.lists(st.integers(0, nf - 1), max_size=3)), "name": draw(st.sampled_from(["str", "path", "tuple"]))}


def amp(c, f, i):
    if [f, i] in c.get("dead", []):
        return np.zeros(c["n"])
    return np.asarray(noise(c["n"], c["seed"] + 16 * f + i, 50), np.float32).astype(float)


def write_file(c, f, fname, **over):
    """Write shot f of the case; `over` changes that one file."""
    order = over.get("order", c["orders"][f])
    n, dt = over.get("n", c["n"]), over.get("dt", c["dt"])
    xs = over.get("x", c["x"])
    sx, sy = over.get("sx", c["sx"]), over.get("sy", c["sy"])
    if c["fmt"] == "SEG2":
        write_seg2(fname, [([("DELAY", f"{over.get('delay_ms', c['delay_ms']) / 1000:.3f}"), ("RECEIVER_LOCATION", xs[i]), ("SAMPLE_INTERVAL", f"{dt:g}"),
                             ("SOURCE_LOCATION", sx), ("STACK", c["nst"][f])], amp({**c, "n": n}, f, i)) for i in order])
        return
    d = {"fmt": c["fmt"], "sc": c.get("sc", 1), "gx": [xs[i] for i in order], "gy": [c["y"][i] for i in order], "sx": sx, "sy": sy, "nst": c["nst"][f],
         "delay": over.get("delay_ms", c["delay_ms"]), "units": 1, "n": n, "dt": dt, "seed": 0, "amps": [amp({**c, "n": n}, f, i) for i in order]}
    _write(d, fname)


def _write(d, fname):
    import obspy
    from obspy.io.segy.segy import SEGYTraceHeader
    stream = obspy.Stream()
    for k, a in enumerate(d["amps"]):
        t = obspy.Trace(np.asarray(a, np.float32))
        t.stats.delta = d["dt"]
        h = SEGYTraceHeader()
        h.scalar_to_be_applied_to_all_coordinates = d["sc"]
        h.source_coordinate_x, h.source_coordinate_y = d["sx"], d["sy"]
        h.group_coordinate_x, h.group_coordinate_y = d["gx"][k], d["gy"][k]
        h.number_of_horizontally_stacked_traces_yielding_this_trace = d["nst"]
        h.delay_recording_time = d["delay"]
        h.coordinate_units = 1
        key = "su" if d["fmt"] == "SU" else "segy"
        t.stats[key] = {}
        t.stats[key].trace_header = h
        if d["fmt"] == "SU":
            t.stats.starttime = obspy.UTCDateTime(2020, 12, 18, 10, 0, 0)
        stream.append(t)
    stream.write(fname, format=d["fmt"], **({"data_encoding": 5} if d["fmt"] == "SEGY" else {}))


def read(c, names, **kw):
    import pathlib
    (ax, bx), (ay, by) = c["mx"], c["my"]
    if c["name"] == "path":
        names = [pathlib.Path(p) for p in names]
    elif c["name"] == "tuple":
        names = tuple(names)
    return Array1D.from_files(names if len(names) > 1 else names[0] if c["name"] != "tuple" else names,
                              map_x=lambda x: ax * x + bx, map_y=lambda y: ay * y + by, **kw)


def verify(c, a, files):
    (ax, bx), (ay, by) = c["mx"], c["my"]
    ys = [0] * len(c["x"]) if c["fmt"] == "SEG2" else c["y"]
    want = sorted((ax * x + bx, ay * y + by, i) for i, (x, y) in enumerate(zip(c["x"], ys)))
    tot = sum(c["nst"][f] for f in files)
    ensure(a.nchannels == len(want), "number of channels", got=a.nchannels)
    for s, (x, y, i) in zip(a.sensors, want):
        ensure(same(s.x, x) and same(s.y, y), "receiver position", got=(s.x, s.y), want=(x, y))
        mean = sum(amp(c, f, i) * c["nst"][f] for f in files) / tot
        ensure_close(s.amplitude, mean, "stack is not the weighted mean of this receiver's traces", rtol=1e-9)
        ensure(s.nstacks == tot, "stack count", got=s.nstacks, want=tot)
        ensure(same(s.delay, c["delay_ms"] / 1000) and same(s.dt, c["dt"]), "time axis metadata")
    ensure(same(a.source.x, ax * c["sx"] + bx), "source position", got=a.source.x)


@st.composite
def case_stack(draw):
    c = draw(case_files())
    if draw(st.integers(0, 2)) == 0:                         # receivers which recorded nothing in some of the shots
        c["dead"] = [[draw(st.integers(0, len(c["orders"]) - 1)), draw(st.integers(0, len(c["x"]) - 1))] for _ in range(draw(st.integers(1, 3)))]
    return c


@P.check(case_stack, 400)
def stack(c, r):
    """Receiver-by-receiver weighted mean whatever the file and trace order."""
    nf = len(c["orders"])
    names = [f"shot{f}.dat" for f in range(nf)]
    for f in range(nf):
        write_file(c, f, names[f])
    r.nt(nf > 1 and any(o != c["orders"][0] for o in c["orders"]))
    r.label(c["fmt"], f"{nf} files", c["name"], "reversing map" if c["mx"][0] < 0 else "forward map")
    a = read(c, names)
    verify(c, a, range(nf))
    b = read(c, [names[f] for f in c["perm"]])
    verify(c, b, range(nf))
    ensure(a == b, "file order matters")
    if c["again"]:       # a file listed again counts again
        files = list(range(nf)) + c["again"]
        r.label("a file listed again")
        verify(c, read(c, [names[f] for f in files]), files)
        verify(c, read(c, [names[f] for f in files[::-1]]), files)


@st.composite
def case_bad(draw):
    c = draw(case_files(min_files=2))
    how = ["source x", "position", "missing", "dt", "nsamples", "delay"] + ([] if c["fmt"] == "SEG2" else ["source y"])
    c["how"] = draw(st.sampled_from(how))
    c["bad"] = draw(st.integers(1, len(c["orders"]) - 1))
    c["extra"] = draw(st.booleans())
    return c


@P.check(case_bad, 350)
def refuse(c, r):
    """A file of another shot or layout is refused wherever it is in the list."""
    nf = len(c["orders"])
    names = [f"shot{f}.dat" for f in range(nf)]
    small = 1
    if c["extra"] and c["how"].startswith("source") and c["fmt"] != "SEG2":      # shots a millimetre apart
        c["sc"], c["mx"], c["my"] = -1000, [1, 0], [1, 0]
    over = {"source x": {"sx": c["sx"] + [100, small][c["extra"]]}, "source y": {"sy": c["sy"] + [5, small][c["extra"]]}, "position": {"x": [c["x"][0] + 200] + c["x"][1:]},
            "missing": {"order": c["orders"][c["bad"]][:-1]}, "dt": {"dt": c["dt"] * 2}, "nsamples": {"n": c["n"] + 1},
            "delay": {"delay_ms": c["delay_ms"] - 3}}[c["how"]]
    r.nt()
    r.label(c["how"], c["fmt"])
    for f in range(nf):
        write_file(c, f, names[f], **(over if f == c["bad"] else {}))
    with must_raise(ValueError, msg=f"file with a different {c['how']} was stacked"):
        read(c, names)
    if c["how"] == "missing":     # also when the shorter file comes first
        names[0], names[c["bad"]] = names[c["bad"]], names[0]
        with must_raise(ValueError, msg="file with more traces was stacked"):
            read(c, names)


@st.composite
def case_opts(draw):
    c = draw(case_files(min_files=2))
    c["fmt"] = "SU"
    c["keep"] = draw(st.integers(3, c["n"] - 1))
    return c


@P.check(case_opts, 120)
def read_options(c, r):
    """Reading options (here: only the first part of each record) apply to every file."""
    import obspy
    nf = len(c["orders"])
    names = [f"shot{f}.dat" for f in range(nf)]
    r.nt()
    for f in range(nf):
        write_file(c, f, names[f])
    start = obspy.read(names[0], format="SU")[0].stats.starttime
    a = read(c, names, obspy_read_kwargs={"format": "SU", "endtime": start + (c["keep"] - 0.6) * c["dt"]})
    for s in a.sensors:
        ensure(s.nsamples == c["keep"], "reading options were not used", got=s.nsamples, want=c["keep"])
    full = read(c, names)
    for s, t in zip(a.sensors, full.sensors):
        ensure_close(s.amplitude, t.amplitude[:c["keep"]], "partial records stack differently")
    verify(c, full, range(nf))
