from lib import *
from scipy import special
from swprocess.register import WavefieldTransformRegistry as R

P = Property("C11", rule="Noise arrays (2-7 sensors, either source side, regular or not, padded or not), every transform, weighting and steering, linear and "
             "logarithmic velocity axes, band edges on and off the frequency grid; non-trivial = at least two velocities and two frequencies.",
             assumptions=["f = 0 is not used with cylindrical steering", "every trace has energy at the frequencies transformed (the phase of nothing is undefined)", "band edges are not half way between two frequencies",
                          "the slant stack keeps at least a few intercept times"])


def offsets_and_traces(c, amps):
    off = np.array([abs(x - c["src"]) for x in c["xs"]])
    order = np.argsort(off)
    return off[order], amps[order]


def pad_ref(amps, target):
    n = amps.shape[1]
    if target is None or target == n:
        return amps, 1
    new = target if target > n else -(-n // target) * target
    return np.hstack([amps, np.zeros((len(amps), new - n))]), new // target


def dft(a, k):
    n = a.shape[1]
    t = np.arange(n)
    return np.array([np.sum(a * np.exp(-2j * np.pi * q * t / n), axis=1) for q in k]).T     # (channel, frequency)


def trap(x, y):
    return np.sum(0.5 * (x[1:] - x[:-1]) * (y[1:] + y[:-1]))


def ref_velocities(c):
    k = np.arange(c["nvel"])
    if c["nvel"] == 1:
        return np.array([c["vmin"]], float)
    if c["vspace"] in ("linear", "lin"):
        return c["vmin"] + (c["vmax"] - c["vmin"]) * k / (c["nvel"] - 1)
    return c["vmin"] * (c["vmax"] / c["vmin"]) ** (k / (c["nvel"] - 1))


def ref_power(c, off, amps, vels, ids, frqs):
    n, dt = amps.shape[1], c["dt"]
    if c["transform"] == "slantstack":
        x = off - off.min()
        q = x.max() / vels.min() / dt
        out = []
        for nt in sorted({n - int(np.floor(q + e)) - 1 for e in (-1e-9, 1e-9)}):
            st_ = np.zeros((len(vels), n))
            for r, v in enumerate(vels):
                t = np.arange(nt)
                rows = []
                for k in range(len(x)):
                    pos = t + x[k] / v / dt
                    rows.append(np.interp(pos, np.arange(n), amps[k]))
                rows = np.array(rows)
                st_[r, :nt] = np.sum(0.5 * np.diff(x)[:, None] * (rows[1:] + rows[:-1]), axis=0)
            out.append(dft(st_, ids))
        return out
    u = dft(amps, ids)
    pw = np.empty((len(vels), len(ids)), complex)
    for i, f in enumerate(frqs):
        for j, v in enumerate(vels):
            ph = 2 * np.pi * f * off / v
            if c["transform"] == "phaseshift":
                pw[j, i] = abs(trap(off, np.exp(1j * ph) * u[:, i] / np.abs(u[:, i])))
                continue
            g = u[:, i]
            weighting, steering = (c["weighting"], c["steering"]) if c["transform"] == "fdbf" else ("none", "plane")
            if weighting == "invamp":
                g = g / np.abs(g)
            if weighting == "sqrt":
                g = g * off
            s = np.exp(1j * np.angle(special.hankel1(0, ph))) if steering == "cylindrical" else np.exp(1j * ph)
            pw[j, i] = abs(np.sum(s * g)) ** 2
    return [pw]


def size_of(c, off, amps, ids):
    """The image's value were every contribution to add up (what remains of contributions which cancel is rounding)."""
    u = np.abs(dft(amps, ids))
    if c["transform"] == "phaseshift":
        return off.max() - off.min()
    if c["transform"] == "slantstack":
        return np.ptp(off) * np.sum(np.max(np.abs(amps), axis=0))
    w = c["weighting"] if c["transform"] == "fdbf" else "none"
    return np.max(np.sum(u / u if w == "invamp" else u * off[:, None] if w == "sqrt" else u, axis=0)) ** 2


@st.composite
def case_tr(draw, long=False):
    c = draw(st_array(max_ch=7, min_n=16, max_n=48, dts=[1 / 1024, 1 / 256, 0.001, 0.002]))
    if long:
        c["n"] = draw(st.sampled_from([3000, 9000, 40000, 70000, 140000]))
    c["transform"] = draw(st.sampled_from(["phaseshift", "fdbf", "fdbf", "fdbf", "slantstack", "fk"]))
    c["weighting"] = draw(st.sampled_from(["none", "sqrt", "invamp"]))
    c["steering"] = draw(st.sampled_from(["plane", "cylindrical"]))
    c["target"] = draw(st.one_of(st.none(), st.integers(12, 90)))
    c["vspace"] = draw(st.sampled_from(["linear", "lin", "log", "logarithmic"]))
    c["nvel"] = draw(st.integers(1, 6)) if long else sized(draw, 1, 6, (101, 200, 400), 25)
    aperture = c["xs"][-1] - c["xs"][0]
    vlow = aperture / (0.5 * c["n"] * c["dt"])
    c["vmin"] = round((vlow if c["transform"] == "slantstack" else 20.0) * draw(st.floats(1.0, 3.0)), 3) + 0.001
    c["vmax"] = round(c["vmin"] * draw(st.floats(1.05, 8.0)), 3)
    if c["transform"] == "slantstack" and draw(st.booleans()):
        # the slowest trial velocity delays the far sensor by a whole number of samples
        c["vmin"] = aperture / (draw(st.integers(1, c["n"] // 2)) * c["dt"])
        c["vmax"] = c["vmin"] * 2.5
    if draw(st.integers(0, 4)) == 0:                         # from the fastest to the slowest
        c["vmin"], c["vmax"] = c["vmax"], c["vmin"]
    c["k0"], c["dk"] = draw(st.integers(1, 3)), draw(st.integers(0, 3))
    if draw(st.integers(0, 4)) == 0 and not (c["transform"] == "fdbf" and c["steering"] == "cylindrical"):
        c["k0"] = 0                     # the band begins at zero frequency
    c["e0"], c["e1"] = draw(st.sampled_from([0, 0.2718, -0.2718])), draw(st.sampled_from([0, 0.2718, -0.2718]))
    return c


@P.check(case_tr, 700)
def reference(c, r):
    """The image equals the textbook definition, at the right frequencies and velocities; inputs are left alone."""
    import copy
    c["e0"] = abs(c["e0"]) if c["k0"] == 0 else c["e0"]
    a = make_array(c)
    amps, mult = pad_ref(array_amps(c), c["target"])
    n = amps.shape[1]
    dfu = mult / (n * c["dt"])
    if c["target"]:
        a.zero_pad(1 / (c["target"] * c["dt"]))
    fmin, fmax = (c["k0"] + c["e0"]) * dfu, (c["k0"] + c["dk"] + c["e1"]) * dfu
    i0, i1 = round((c["k0"] + c["e0"]) * mult), round((c["k0"] + c["dk"] + c["e1"]) * mult)
    if i1 < i0:
        i1, fmax = i0, fmin
    ids = list(range(i0, i1 + 1, mult))
    frqs = np.array(ids) / (n * c["dt"])
    s = settings_dict(transform=c["transform"], fmin=fmin, fmax=fmax, vmin=c["vmin"], vmax=c["vmax"], nvel=c["nvel"], vspace=c["vspace"],
                      weighting=c["weighting"], steering=c["steering"])["processing"]
    snap = copy.deepcopy(s)
    before = [state_of(q) for q in a.sensors]
    t = R.create_class(c["transform"]).from_array(a, s)
    r.nt(c["nvel"] > 1 and len(ids) > 1)
    if c["transform"] == "slantstack" and abs((q := (c["xs"][-1] - c["xs"][0]) / c["vmin"] / c["dt"]) - round(q)) < 1e-6:
        r.label("whole-sample delay")
    r.label(c["transform"], c["vspace"], "decimated" if mult > 1 else "plain", "source right" if c["src"] > c["xs"][-1] else "source left")
    if c["transform"] == "fdbf":
        r.label(f"{c['weighting']}/{c['steering']}")
    ensure(s == snap, "the transform modified the caller's settings", before=snap, after=s)
    for q, b in zip(a.sensors, before):
        ensure_state(b, state_of(q), "the transform modified the recordings")
    vels = ref_velocities(c)
    ensure_close(t.velocities, vels, "trial velocities", rtol=1e-12)
    ensure_close(t.frequencies, frqs, "frequencies", rtol=1e-12)
    ensure(t.power.shape == (c["nvel"], len(ids)), "image shape", got=t.power.shape)
    off, am = offsets_and_traces(c, amps)
    refs = ref_power(c, off, am, vels, ids, frqs)
    ensure(any(close(t.power, q, rtol=1e-7, atol=1e-13 * size_of(c, off, am, ids)) for q in refs), "image differs from its definition", got=t.power, want=refs[0])
    ensure(t.n == 1, "a fresh image counts once")
    e = R.create_class("empty").from_array(a, s)
    ensure_close(e.frequencies, frqs, "empty image frequencies", rtol=1e-12)
    ensure_close(e.velocities, vels, "empty image velocities", rtol=1e-12)
    ensure(e.power.shape == t.power.shape and not np.any(e.power) and e.n == 0, "empty image is not empty")


@P.check(lambda: case_tr(long=True), 60)
def long_records(c, r):
    """The same for records as long as those of passive recordings."""
    reference(c, r)


@st.composite
def case_unknown(draw):
    return {"name": draw(st.text("abcdefgkps", min_size=1, max_size=10))}


@P.check(case_unknown, 60)
def registry(c, r):
    """Names select the documented transform; unknown names are refused."""
    from swprocess.register import MaswWorkflowRegistry as W
    known = {"phaseshift": "PhaseShift", "fdbf": "FDBF", "slantstack": "SlantStack", "fk": "FK", "empty": "EmptyWavefieldTransform"}
    r.nt()
    for k, v in known.items():
        ensure(R.create_class(k).__name__ == v, "transform name", name=k)
    if c["name"] not in known:
        with must_raise(Exception, msg="unknown transform accepted"):
            R.create_class(c["name"])
    if c["name"] not in ("single", "time-domain", "frequency-domain", "time-domain-xcorr"):
        with must_raise(Exception, msg="unknown workflow accepted"):
            W.create_class(c["name"])
