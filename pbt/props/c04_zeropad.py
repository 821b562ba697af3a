from lib import *

P = Property("C04", rule="Histories of 1-4 padding requests (exact or approximate frequency steps, finer and coarser than the record's own, and "
             "non-positive ones) on a series or every sensor of an array; non-trivial = a request adds zeros and needs decimation (coarser step).",
             assumptions=["requested step does not exceed the sampling frequency"])


@st.composite
def case_pad(draw):
    n = sized(draw, 4, 60, (500, 2000, 7001))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["exact", "exact", "approx", "bad"]))
        target = sized(draw, 2, 130, (1000, 4096, 20000, 70000, 131072))
        if draw(st.integers(0, 3)) == 0:                     # the record's own step, or one related to it
            target = draw(st.sampled_from([n, n, max(2, n // 2), 2 * n, n + 1, max(2, n - 1)]))
        ops.append({"kind": kind, "target": target, "f": draw(st.floats(-0.4, 0.4)), "bad": draw(st.sampled_from([0, -1.0, -0.25]))})
    return {"n": n, "dt": draw(st.sampled_from(DTS)), "seed": draw(seeds), "pre": draw(st.integers(0, 5)), "ops": ops,
            "array": draw(st.booleans()), "silent": draw(st.sampled_from([0, 0, 0, 1, 2])), "nstacks": draw(st.integers(1, 4))}


@P.check(case_pad, 1500)
def history(c, r):
    """Padding keeps the record as a prefix, appends only zeros, and delivers the requested frequency step."""
    dt, nch = c["dt"], 3 if c["array"] else 1
    amps = [noise(c["n"], c["seed"] * 8 + k) for k in range(nch)]
    for k, a in enumerate(amps):                             # some or all of the traces are dead
        if c["silent"] == 2 or c["silent"] and k % 2 == 0:
            a[:] = 0
    sensors = [Sensor1C(a, dt, x=2.0 * k, y=0, z=0, nstacks=c["nstacks"], delay=-c["pre"] * dt) for k, a in enumerate(amps)]
    target = Array1D(sensors, Source(-5, 0, 0)) if c["array"] else sensors[0]
    cur = c["n"]
    for op in c["ops"]:
        before = [state_of(s) for s in sensors]
        r.label(op["kind"])
        if op["kind"] == "bad":
            with must_raise(ValueError, msg="non-positive frequency step accepted"):
                target.zero_pad(op["bad"])
            for s, b in zip(sensors, before):
                ensure_state(b, state_of(s), "a refused padding changed the record")
            continue
        want_n = op["target"]
        df = 1 / ((want_n + (op["f"] if op["kind"] == "approx" else 0.0)) * dt)
        target.zero_pad(df)
        new = want_n if want_n >= cur else -(-cur // want_n) * want_n
        if new > cur and new > want_n:
            r.nt()
        r.label("finer" if want_n > cur else "same" if want_n == cur else "coarser")
        for k, s in enumerate(sensors):
            a = np.asarray(s.amplitude)
            ensure(s.nsamples == new and a.shape == (new,), "padded length", got=s.nsamples, want=new)
            ensure(np.array_equal(a[:c["n"]], amps[k]), "padding altered the recorded samples")
            ensure(not np.any(a[c["n"]:]), "padding appended something other than zeros")
            ensure(s.multiple * want_n == new, "decimation factor does not give the requested step", multiple=s.multiple)
            ensure_close(s.df, 1 / (want_n * dt), "frequency step after padding")
            ensure(abs(s.df - df) <= 0.5 / want_n * df * 1.3 + 1e-9 * df, "frequency step is not close to the request", got=s.df, want=df)
            ensure(s.dt == dt and s.nstacks == c["nstacks"] and s.delay == -c["pre"] * dt and s.x == 2.0 * k, "padding changed metadata")
            ensure_close(s.time, (np.arange(new) - c["pre"]) * dt, "time axis after padding")
        cur = new


@st.composite
def case_spec(draw):
    c = draw(st_array(max_ch=4, min_n=8, max_n=40))
    c["target"] = draw(st.integers(8, 90))
    c["k0"] = draw(st.integers(1, 3))
    c["k1"] = draw(st.integers(0, 3))
    c["transform"] = draw(st.sampled_from(["phaseshift", "fdbf", "slantstack"]))
    return c


@P.check(case_spec, 300)
def spectrum(c, r):
    """After padding, a dispersion image is sampled exactly at multiples of the requested step inside the requested band."""
    from swprocess.register import WavefieldTransformRegistry as R
    a = make_array(c)
    df = 1 / (c["target"] * c["dt"])
    kmax = c["target"] // 2
    k0 = min(c["k0"], kmax)
    k1 = min(k0 + c["k1"], kmax)
    r.nt(c["n"] > c["target"] and c["n"] % c["target"] != 0)
    r.label(c["transform"], "coarser" if c["n"] > c["target"] else "finer")
    a.zero_pad(df)
    s = settings_dict(transform=c["transform"], fmin=k0 * df, fmax=k1 * df, vmin=1e5, vmax=1e6, nvel=2, weighting="none", steering="plane")["processing"]
    t = R.create_class(c["transform"]).from_array(a, s)
    ensure_close(t.frequencies, np.arange(k0, k1 + 1) * df, "frequencies are not the multiples of the requested step")
    ensure(t.power.shape == (2, k1 - k0 + 1), "image shape")
