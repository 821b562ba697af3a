from lib import *

P = Property("C03", rule="Histories of 1-4 trim requests (on or off the sampling grid, logical and illogical) on one series or a whole array "
             "with pre-trigger samples; non-trivial = at least one request succeeds and removes samples at the front and at the back.",
             assumptions=["a window keeps at least two samples"])


@st.composite
def case_trim(draw):
    n = sized(draw, 8, 60, (500, 3001, 12000))
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["ok", "ok", "ok", "early", "late", "crossed", "empty"]))
        ops.append({"kind": kind, "a": draw(st.floats(0, 1)), "b": draw(st.floats(0, 1)), "fa": draw(st.sampled_from([0, 0, 0.2, -0.2, 0.4, -0.4])),
                    "fb": draw(st.sampled_from([0, 0, 0.2, -0.2, 0.4, -0.4])), "by": draw(st.integers(1, 5))})
    return {"n": n, "pre": draw(st.integers(0, n - 1)), "dt": draw(st.sampled_from(DTS)) * draw(st.sampled_from([1, 1, 1, 1e-2, 1e-4])), "seed": draw(seeds), "ops": ops,
            "nstacks": draw(st.integers(1, 4)), "array": draw(st.booleans()), "dead": draw(st.sampled_from([[], [], [], [1], [0], [0, 1, 2]]))}


@P.check(case_trim, 1500)
def history(c, r):
    """Trimming keeps exactly the samples of the window with their recorded times; illogical requests change nothing."""
    dt, n = c["dt"], c["n"]
    nch = 3 if c["array"] else 1
    amps = [noise(n, c["seed"] * 8 + k) for k in range(nch)]
    for k in c["dead"]:
        if k < nch:
            amps[k][:] = 0
    sensors = [Sensor1C(a, dt, x=2.0 * k, y=0, z=0, nstacks=c["nstacks"], delay=-c["pre"] * dt) for k, a in enumerate(amps)]
    target = Array1D(sensors, Source(-5, 0, 0)) if c["array"] else sensors[0]
    lo, hi = 0, n            # kept slice of the original record
    off = 0.0                # accumulated half-sample uncertainty of the time axis, in seconds
    for op in c["ops"]:
        m = hi - lo
        axis = np.array(sensors[0].time)
        before = [state_of(s) for s in sensors]
        if op["kind"] == "ok":
            if m < 4:
                continue
            i = int(op["a"] * (m - 3))
            j = i + 2 + int(op["b"] * (m - 3 - i))
            t0, t1 = axis[i] + op["fa"] * dt, axis[j] + op["fb"] * dt
            t0, t1 = max(t0, axis[0]), min(t1, axis[-1])
            r.label("on grid" if op["fa"] == 0 == op["fb"] else "off grid")
            target.trim(t0, t1)
            if i > 0 and j < m - 1:
                r.nt()
            lo, hi = lo + i, lo + j + 1
            off += abs(t0 - axis[i])
            for k, s in enumerate(sensors):
                ensure_close(s.amplitude, amps[k][lo:hi], "trimming kept the wrong samples", rtol=0)
                ensure(s.nsamples == hi - lo, "sample count")
                true = (np.arange(lo, hi) - c["pre"]) * dt
                err = np.max(np.abs(np.asarray(s.time) - true))
                ensure(err <= off + 1e-6 * dt, "samples no longer carry their recorded time", err_in_samples=err / dt, allowed=off / dt)
                ensure(s.dt == dt and s.nstacks == c["nstacks"] and s.x == 2.0 * k, "trimming changed unrelated metadata")
                ensure_close(s.df, 1 / ((hi - lo) * dt), "frequency step after trimming")
        else:
            d = op["by"] * dt
            t0, t1 = {"early": (axis[0] - d, axis[-1]), "late": (axis[0], axis[-1] + d),
                      "crossed": (axis[m // 2] + d, axis[m // 2]), "empty": (axis[m // 2], axis[m // 2])}[op["kind"]]
            r.label(op["kind"])
            with must_raise(IndexError, msg=f"illogical window ({op['kind']}) accepted"):
                target.trim(t0, t1)
            for s, b in zip(sensors, before):
                ensure_state(b, state_of(s), "a refused trim changed the record")


@st.composite
def case_whole(draw):
    n = sized(draw, 4, 50, (500, 3001, 12000))
    return {"n": n, "pre": draw(st.integers(0, n - 1)), "dt": draw(st.sampled_from(DTS)), "seed": draw(seeds)}


@P.check(case_whole, 250)
def whole_record(c, r):
    """Trimming to the record's own extent is the identity."""
    r.nt(c["pre"] > 0)
    t = ActiveTimeSeries(noise(c["n"], c["seed"]), c["dt"], delay=-c["pre"] * c["dt"])
    before = state_of(t)
    t.trim(min(t.time), max(t.time))
    ensure_state(before, state_of(t), "trimming to the full extent changed the record", rtol=1e-12)
