from lib import *
from swprocess.snr import SignaltoNoiseRatio

P = Property("C15", rule="Signal and noise arrays of 1-6 sensors (independent lengths and starting times, any levels), padded to a drawn frequency step finer or "
             "coarser than the records or not padded; non-trivial = several frequencies are compared.",
             assumptions=["band edges lie within a quarter step of a frequency of the padded record"])


@st.composite
def case_snr(draw):
    k = sized(draw, 1, 6, (24, 48), 20)
    n = sized(draw, 8, 40, (300, 1000), 20)
    c = {"k": k, "ns": n, "nn": draw(st.one_of(st.just(n), st.just(n), st.integers(8, 40))), "dt": draw(st.sampled_from(EXACT_DTS)), "seed": draw(seeds),
         "sl": draw(st.sampled_from([1.0, 20.0, 1e-3])), "nl": draw(st.sampled_from([1.0, 0.1, 1e3])), "pad": draw(st.one_of(st.none(), st.integers(8, 100))),
         "k0": draw(st.integers(0, 4)), "dk": draw(st.integers(0, 5)), "e0": draw(st.sampled_from([0, 0.2, -0.2])), "e1": draw(st.sampled_from([0, 0.2, -0.2])),
         "preS": draw(st.integers(0, 5)), "preN": draw(st.integers(0, 5)), "src": draw(st.sampled_from([-10.0, 60.0])), "gain": draw(st.sampled_from([2.0, 0.5, 10.0])),
         "bias": draw(st.sampled_from([0.0, 3.0])), "kn": draw(st.one_of(st.just(None), st.just(None), st.integers(1, 6)))}
    c["deadS"], c["deadN"] = [draw(st.sampled_from([None, None, None, 0, 1, 5])) for _ in range(2)]      # a sensor which recorded nothing
    return c


def amps(c, which, gain=1.0):
    n, lev, off = (c["ns"], c["sl"], 0) if which == "s" else (c["nn"], c["nl"], 5000)
    a = np.array([gain * (noise(n, c["seed"] + off + i, lev) + c["bias"] * lev) for i in range(c.get("kn") or c["k"] if which == "n" else c["k"])])
    dead = c["deadS" if which == "s" else "deadN"]
    if dead is not None and len(a) > 1:
        a[dead % len(a)] = 0.0
    return a


def build(c, which, gain=1.0):
    a = amps(c, which, gain)
    pre = c["preS"] if which == "s" else c["preN"]
    return Array1D([Sensor1C(v, c["dt"], x=4.0 * i, y=0, z=0, delay=-pre * c["dt"]) for i, v in enumerate(a)], Source(c["src"], 0, 0))


def padded(n, target):
    if target is None:
        return n, 1
    new = target if target >= n else -(-n // target) * target
    return new, new // target


def spectrum(a, n, q):
    t = np.arange(a.shape[1])
    return np.array([np.mean([abs(np.sum(row * np.exp(-2j * np.pi * k * t / n))) for row in a]) for k in q])


@P.check(case_snr, 1200)
def definition(c, r):
    """The ratio of mean spectral amplitudes of the two windows at the reported frequencies; refused when the windows cannot be compared."""
    (ns, ms), (nn, mn) = padded(c["ns"], c["pad"]), padded(c["nn"], c["pad"])
    t = c["pad"] or c["ns"]
    step = 1 / (t * c["dt"])
    k0, k1 = min(c["k0"], t // 2), min(c["k0"] + c["dk"], t // 2)
    e0 = c["e0"] if k0 else abs(c["e0"])
    kw = dict(fmin=(k0 + e0) * step, fmax=max((k1 + c["e1"]) * step, (k0 + e0) * step), pad_snr=c["pad"] is not None,
              df_snr=None if c["pad"] is None else 1 / (c["pad"] * c["dt"]))
    if ns != nn:
        r.label("refused")
        with must_raise(IndexError, msg="windows of unequal length were compared"):
            SignaltoNoiseRatio.from_array1ds(build(c, "s"), build(c, "n"), **kw)
        return
    r.label("not padded" if c["pad"] is None else "coarser" if c["pad"] < c["ns"] else "finer", "equal windows" if c["ns"] == c["nn"] else "unequal windows")
    # frequencies: every `step` from the one nearest to fmin up to the one nearest to fmax on the padded record's own grid
    i0, i1 = round((k0 + e0) * ms), round((k1 + c["e1"]) * ms)
    i1 = max(i0, i1)
    ids = np.arange(i0, i1 + 1, ms)
    s = SignaltoNoiseRatio.from_array1ds(build(c, "s"), build(c, "n"), **kw)
    r.nt(len(ids) > 1)
    ensure_close(s.frequencies, ids / (ns * c["dt"]), "frequencies", rtol=1e-12)
    want = spectrum(amps(c, "s"), ns, ids) / spectrum(amps(c, "n"), nn, ids)
    got = np.asarray(s.snr)
    ensure(got.shape == want.shape and np.all(np.abs(got - want) <= 1e-6 * want), "signal-to-noise ratio", got=got, want=want)
    # gains
    g = SignaltoNoiseRatio.from_array1ds(build(c, "s", c["gain"]), build(c, "n"), **kw)
    ensure_close(g.snr, got * c["gain"], "a stronger signal does not scale the ratio", rtol=1e-9)
    g = SignaltoNoiseRatio.from_array1ds(build(c, "s", c["gain"]), build(c, "n", c["gain"]), **kw)
    ensure_close(g.snr, got, "a common gain changes the ratio", rtol=1e-9)
    if c["ns"] == c["nn"]:
        one = SignaltoNoiseRatio.from_array1ds(build(c, "n"), build(c, "n"), **kw)
        ensure_close(one.snr, np.ones(len(ids)), "noise against itself", rtol=1e-9)
