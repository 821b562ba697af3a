from lib import *

P = Property("C06", rule="Arrays of 1-6 sensors supplied in any order, coordinates on a millimetre grid (negative and kilometre-scale included), "
             "stacks and whole milliseconds of pre-trigger up to the limits of the format, sampling intervals of any whole number of microseconds (50 us to 30 ms); non-trivial = several stacks or a pre-trigger part, and a "
             "sub-metre coordinate.",
             assumptions=["coordinates are multiples of 1 mm, delays of 1 ms, sampling intervals of 1 us, samples are float32 (what the format can hold)"])

SU_DTS = [0.0001, 0.000125, 0.00025, 0.0005, 0.001, 0.002, 0.004, 0.005, 0.01, 0.02]
mm = st.one_of(st.integers(-3000, 3000), st.integers(-2_000_000, 2_000_000), st.integers(-200, 200).map(lambda k: 1000 * k))


@st.composite
def case_su(draw):
    k = sized(draw, 1, 6, (24, 100))
    xs = draw(st.lists(mm, min_size=k, max_size=k, unique=True))
    return {"x": xs, "y": draw(st.lists(mm, min_size=k, max_size=k)), "sx": draw(mm), "sy": draw(mm),
            "nstacks": draw(st.one_of(st.integers(1, 30), st.integers(1, 32767))), "pre_ms": draw(st.one_of(st.integers(0, 800), st.integers(1000, 2100), st.integers(0, 32767))), "dt": draw(st.one_of(st.sampled_from(SU_DTS), st.integers(50, 30000).map(lambda k: k / 1_000_000))),
            "n": sized(draw, 2, 60, (1000, 8000, 32767)), "seed": draw(seeds), "scale": draw(st.sampled_from([1.0, 1e-4, 3e4])), "path": draw(st.booleans()),
            "name": draw(st.sampled_from(["out.su", "out.dat", "out", "out.v2.SU"])),
            "integer": draw(st.booleans())}


def build(c):
    amps = [np.round(noise(c["n"], c["seed"] + k, 1000)) if c["integer"] else noise(c["n"], c["seed"] + k, c["scale"]) for k in range(len(c["x"]))]
    amps = [np.asarray(a, np.float32).astype(float) for a in amps]
    sensors = [Sensor1C(a, c["dt"], x=x / 1000, y=y / 1000, z=0, nstacks=c["nstacks"], delay=-c["pre_ms"] / 1000)
               for a, x, y in zip(amps, c["x"], c["y"])]
    return Array1D(sensors, Source(c["sx"] / 1000, c["sy"] / 1000, 0)), amps


@P.check(case_su, 500)
def roundtrip(c, r):
    """Everything written to a file is read back, repeatedly, and writing changes nothing."""
    import pathlib
    a, amps = build(c)
    before = [state_of(s) for s in a.sensors]
    r.nt((c["nstacks"] > 1 or c["pre_ms"]) and any(x % 1000 for x in c["x"]))
    r.label("stacked" if c["nstacks"] > 1 else "single", "pre-trigger" if c["pre_ms"] else "no pre-trigger")
    name = pathlib.Path(c["name"]) if c["path"] else c["name"]
    a.to_file(str(name))
    for s, b in zip(a.sensors, before):
        ensure_state(b, state_of(s), "writing modified the array")
    prev, prevname = a, name
    order = sorted(range(len(c["x"])), key=lambda i: c["x"][i])
    for gen in range(2):
        b = Array1D.from_files(prevname)
        ensure(b.nchannels == len(c["x"]), "number of channels", got=b.nchannels)
        for s, i in zip(b.sensors, order):
            ensure(abs(s.x - c["x"][i] / 1000) < 1e-9 and abs(s.y - c["y"][i] / 1000) < 1e-9, "receiver position", gen=gen,
                   got=(s.x, s.y), want=(c["x"][i] / 1000, c["y"][i] / 1000))
            ensure(s.nstacks == c["nstacks"], "number of stacks", gen=gen, got=s.nstacks, want=c["nstacks"])
            ensure(abs(s.delay + c["pre_ms"] / 1000) < 1e-9, "pre-trigger delay", got=s.delay)
            ensure_close(s.dt, c["dt"], "sampling interval")
            ensure_close(s.amplitude, amps[i], "samples", rtol=0)
        ensure(abs(b.source.x - c["sx"] / 1000) < 1e-9 and abs(b.source.y - c["sy"] / 1000) < 1e-9, "source position", got=b.source)
        prevname = f"again{gen}.su"
        b.to_file(prevname)
    with must_raise(ValueError, msg="unknown file type accepted"):
        a.to_file("x.dat", ftype="segd")


@P.check(case_su, 120)
def geometry_maps(c, r):
    """Coordinate maps given at reading time apply to receivers and source alike."""
    a, amps = build(c)
    r.nt(len(c["x"]) > 1)
    a.to_file("out.su")
    b = Array1D.from_files("out.su", map_x=lambda x: 500 - 2 * x, map_y=lambda y: y + 7.5)
    want = sorted((500 - 2 * x / 1000, y / 1000 + 7.5, i) for i, (x, y) in enumerate(zip(c["x"], c["y"])))
    for s, (x, y, i) in zip(b.sensors, want):
        ensure(abs(s.x - x) < 1e-8 and abs(s.y - y) < 1e-8, "mapped receiver position", got=(s.x, s.y), want=(x, y))
        ensure_close(s.amplitude, amps[i], "samples follow their receiver", rtol=0)
    ensure(abs(b.source.x - (500 - 2 * c["sx"] / 1000)) < 1e-8 and abs(b.source.y - (c["sy"] / 1000 + 7.5)) < 1e-8, "mapped source position", got=b.source)


@P.check(case_su, 150)
def beyond_the_format(c, r):
    """What the format cannot hold is refused, or kept; it is never altered on the way."""
    r.nt()
    c = dict(c)
    what = ["delay", "stacks", "x", "y", "source x", "source y"][c["seed"] % 6]
    far = (2_147_483_648 + c["seed"] % 1000) * (1 if c["seed"] % 4 < 2 else -1)
    r.label(what)
    if what == "delay":
        c["pre_ms"] = 32769 + c["seed"] % 50000
    elif what == "stacks":
        c["nstacks"] = 32768 + c["seed"] % 70000
    elif what in ("x", "y"):
        c[what] = [far] + c[what][1:]
    else:
        c["s" + what[-1]] = far
    a, amps = build(c)
    try:
        a.to_file("out.su")
    except Exception:
        return
    b = Array1D.from_files("out.su")
    order = sorted(range(len(c["x"])), key=lambda i: c["x"][i])
    for s, i in zip(b.sensors, order):
        ensure(s.nstacks == c["nstacks"] and abs(s.delay + c["pre_ms"] / 1000) < 1e-9, "stacks or delay were altered", got=(s.nstacks, s.delay))
        ensure(abs(s.x - c["x"][i] / 1000) < 1e-6 and abs(s.y - c["y"][i] / 1000) < 1e-6, "receiver position was altered", got=(s.x, s.y))
    ensure(abs(b.source.x - c["sx"] / 1000) < 1e-6 and abs(b.source.y - c["sy"] / 1000) < 1e-6, "source position was altered", got=b.source)
