from lib import *

P = Property("C02", rule="2-6 records of 2-40 samples with 1-9 (now and then up to 10^9) stacks each (integer or noise samples), plain series or sensors; "
             "non-trivial = stack counts differ.")


@st.composite
def case_stack(draw):
    n = sized(draw, 2, 40, (500, 2048, 6001))
    k = sized(draw, 2, 6, (12, 30))
    recs = []
    for _ in range(k):
        if n <= 40 and draw(st.booleans()):
            s = {"vals": draw(st.lists(st.integers(-50, 50), min_size=n, max_size=n))}
        else:
            s = {"n": n, "seed": draw(seeds), "scale": draw(st.sampled_from([1.0, 1000.0]))}
        recs.append({"sig": s, "nstacks": sized(draw, 1, 9, (100, 127, 128, 255, 256, 20000, 32767, 65535, 10**5, 10**9), 8)})
    return {"recs": recs, "dt": draw(st.sampled_from(DTS)), "pre": draw(st.integers(0, 5)), "kind": draw(st.sampled_from(["series", "sensor"])),
            "perm": shuffled(draw, k), "split": draw(st.integers(1, k - 1)), "x": draw(st.integers(-40, 40)) * 0.5}


def build(c, rec, **over):
    kw = dict(amplitude=expand(rec["sig"]), dt=c["dt"], nstacks=rec["nstacks"], delay=-c["pre"] * c["dt"])
    if c["kind"] == "sensor":
        kw.update(x=c["x"], y=1.5, z=-0.5)
    kw.update(over)
    return (Sensor1C if c["kind"] == "sensor" else ActiveTimeSeries)(**kw)


def reference(c):
    num = sum(expand(q["sig"]) * q["nstacks"] for q in c["recs"])
    tot = sum(q["nstacks"] for q in c["recs"])
    return num / tot, tot


@P.check(case_stack, 1200)
def weighted_mean(c, r):
    """Sequential stacking in any order and grouping is the stack-count-weighted mean."""
    want, tot = reference(c)
    scale = max(np.abs(expand(q["sig"])).max() for q in c["recs"]) + 1e-30
    r.nt(len({q["nstacks"] for q in c["recs"]}) > 1)
    r.label(c["kind"], f"{len(c['recs'])} records")
    # in the drawn order
    objs = [build(c, c["recs"][i]) for i in c["perm"]]
    before = [state_of(o) for o in objs]
    base = objs[0]
    for o in objs[1:]:
        ensure(base.stack_append(o) is None, "stacking returns nothing")
    ensure_close(base.amplitude, want, "stack is not the weighted mean", scale=scale)
    ensure(base.nstacks == tot, "stack counts do not add up", got=base.nstacks, want=tot)
    for o, b in zip(objs[1:], before[1:]):
        ensure_state(b, state_of(o), "stacking modified the appended record")
    for k in before[0]:
        if k not in ("amp", "nstacks", "time"):
            ensure(state_of(base)[k] == before[0][k], "stacking changed metadata", key=k)
    ensure_close(base.time, before[0]["time"], "stacking changed the time axis")
    twice = build(c, c["recs"][0])
    twice.stack_append(twice)
    ensure_close(twice.amplitude, expand(c["recs"][0]["sig"]), "a record stacked onto itself is not itself", scale=scale)
    ensure(twice.nstacks == 2 * c["recs"][0]["nstacks"], "count of a record stacked onto itself", got=twice.nstacks)
    # grouped: (first part) + (second part)
    g1, g2 = [build(c, q) for q in c["recs"][:c["split"]]], [build(c, q) for q in c["recs"][c["split"]:]]
    for g in (g1, g2):
        for o in g[1:]:
            g[0].stack_append(o)
    g1[0].stack_append(g2[0])
    ensure_close(g1[0].amplitude, want, "stacking stacks is not the weighted mean", scale=scale)
    ensure(g1[0].nstacks == tot, "grouped stack count")


@st.composite
def case_bad(draw):
    c = draw(case_stack())
    attrs = ["dt", "nsamples", "delay", "other"] + (["x", "y", "z", "series"] if c["kind"] == "sensor" else [])
    c["how"] = draw(st.sampled_from(attrs))
    c["dt"] *= draw(st.sampled_from([1, 1, 1, 1e-6, 1e-9]))  # records of any kind, ultrasonic ones included
    c["x"] += draw(st.sampled_from([0, 0, 500000]))
    c["by"] = draw(st.sampled_from([77.0, 77.0, 0.001, 1.0]))
    return c


@P.check(case_bad, 700)
def refuse(c, r):
    """Incompatible recordings are refused and the stack so far is untouched."""
    r.nt()
    r.label(c["how"])
    base = build(c, c["recs"][0])
    base.stack_append(build(c, c["recs"][1]))
    before = state_of(base)
    amp = expand(c["recs"][0]["sig"])
    if c["how"] == "dt":
        bad = build(c, c["recs"][0], dt=c["dt"] * [1.5, 1.001, 2, 0.999][c["recs"][0]["nstacks"] % 4])
    elif c["how"] == "nsamples":
        bad = build(c, c["recs"][0], amplitude=np.append(amp, 0.0) if c["recs"][0]["nstacks"] % 2 else amp[:1])
    elif c["how"] == "delay":
        bad = build(c, c["recs"][0], delay=-(c["pre"] + [1, 0.375, 0.0625, 2, 0.01][c["recs"][0]["nstacks"] % 5]) * c["dt"])
    elif c["how"] == "other":
        bad = list(amp)
    elif c["how"] == "series":
        bad = ActiveTimeSeries(amp, c["dt"], nstacks=1, delay=-c["pre"] * c["dt"])
    else:
        bad = build(c, c["recs"][0], **{c["how"]: {"x": c["x"], "y": 1.5, "z": -0.5}[c["how"]] + c["by"]})
    with must_raise(ValueError, msg=f"record differing in {c['how']} was stacked"):
        base.stack_append(bad)
    ensure_state(before, state_of(base), "refused stacking changed the target")
    # the refused attempt leaves later stacking intact
    base.stack_append(build(c, c["recs"][-1]))
    q = [c["recs"][0], c["recs"][1], c["recs"][-1]]
    want = sum(expand(k["sig"]) * k["nstacks"] for k in q) / sum(k["nstacks"] for k in q)
    ensure_close(base.amplitude, want, "stack after a refusal", scale=max(np.abs(expand(k["sig"])).max() for k in q) + 1e-30)


@st.composite
def case_ctor(draw):
    c = {"sig": draw(st_signal(2, 20)), "dt": draw(st.sampled_from(DTS)), "nstacks": draw(st.integers(-2, 6)), "pre": draw(st.integers(-3, 6))}
    return c


@P.check(case_ctor, 250)
def construction(c, r):
    """A recording holds exactly what it was given; non-positive stack counts and post-trigger starts are refused."""
    r.nt(c["nstacks"] > 0 and c["pre"] >= 0)
    amp = expand(c["sig"])
    kw = dict(amplitude=amp, dt=c["dt"], nstacks=c["nstacks"], delay=-c["pre"] * c["dt"])
    if c["nstacks"] <= 0 or c["pre"] < 0:
        with must_raise(ValueError, msg="invalid stack count or delay accepted"):
            ActiveTimeSeries(**kw)
        return
    t = ActiveTimeSeries(**kw)
    ensure(t.nstacks == c["nstacks"] and t.dt == c["dt"] and t.nsamples == len(amp), "constructor")
    ensure_close(t.amplitude, amp, "constructor amplitude")
    ensure_close(t.time, (np.arange(len(amp)) - c["pre"]) * c["dt"], "time axis")
    ensure_close(t.df, 1 / (len(amp) * c["dt"]), "frequency step")
    amp[0] += 5
    ensure(t.amplitude[0] != amp[0], "the recording aliases the caller's samples")
