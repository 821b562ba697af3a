from lib import *
from swprocess.register import WavefieldTransformRegistry as R

P = Property("C12", rule="Noise arrays under mirroring, translation, per-trace and global scaling, circular time shifts and superposition; synthetic plane and "
             "cylindrical waves with a drawn dispersion curve; non-trivial = irregular spacing or source on the far side.",
             assumptions=["synthetic waves are periodic in the record, so their spectra are exact"])


@st.composite
def case_sym(draw, transforms=("phaseshift", "fdbf", "slantstack", "fk")):
    c = draw(st_array(max_ch=6, min_n=16, max_n=40, dts=[1 / 1024, 1 / 256, 0.001]))
    if draw(st.booleans()):       # surveyed to the millimetre (steps of 1/512 m stay exact under the moves below)
        fine = draw(st.lists(st.integers(0, 40), min_size=len(c["xs"]) + 1, max_size=len(c["xs"]) + 1))
        c["xs"] = [x + k / 512 for x, k in zip(c["xs"], fine)]
        c["src"] += (fine[-1] / 512) * (-1 if c["src"] < c["xs"][0] else 1)
    c["transform"] = draw(st.sampled_from(list(transforms)))
    c["weighting"] = draw(st.sampled_from(["none", "sqrt", "invamp"]))
    c["steering"] = draw(st.sampled_from(["plane", "cylindrical"]))
    c["v0"] = (c["xs"][-1] - c["xs"][0]) / (0.5 * c["n"] * c["dt"]) * draw(st.floats(1.01, 3.0))
    c["ratio"] = draw(st.floats(1.5, 6.0))
    c["gains"] = draw(st.lists(st.sampled_from([0.25, 0.5, 2.0, 3.0, 10.0]), min_size=len(c["xs"]), max_size=len(c["xs"])))
    c["move"] = draw(st.integers(-400, 400)) * 0.25 + draw(st.sampled_from([0.0, 0.0, 3e7 + 1 / 16, -5e8 - 1 / 32]))      # also projected coordinates
    c["shift"] = draw(st.integers(1, c["n"] - 1))
    c["ys"] = [0.0] * len(c["xs"])
    return c


def image(c, xs=None, src=None, amps=None, transform=None, **kw):
    df = 1 / (c["n"] * c["dt"])
    xs = c["xs"] if xs is None else xs
    a = array_amps(c) if amps is None else amps
    order = list(range(len(xs)))
    arr = make_array({**c, "xs": xs}, amps=a, order=order, src=src)
    args = dict(transform=transform or c["transform"], fmin=df, fmax=4 * df, vmin=c["v0"], vmax=c["v0"] * c["ratio"], nvel=4, weighting=c["weighting"],
                steering=c["steering"])
    args.update(kw)
    s = settings_dict(**args)["processing"]
    return R.create_class(s["transform"]).from_array(arr, s)


def note(c, r):
    r.nt(len(set(np.diff(c["xs"]))) > 1 or c["src"] > c["xs"][-1])
    r.label(c["transform"])


@P.check(case_sym, 250)
def mirror_and_translation(c, r):
    """Only source-receiver distances matter."""
    note(c, r)
    base = image(c).power
    m = image(c, xs=[-x for x in c["xs"]], src=-c["src"]).power
    ensure_close(m, base, "mirrored survey gives another image", rtol=1e-8)
    t = image(c, xs=[x + c["move"] for x in c["xs"]], src=c["src"] + c["move"]).power
    ensure_close(t, base, "translated survey gives another image", rtol=1e-8)


@P.check(case_sym, 250)
def scaling(c, r):
    """Gains: phase shift and inverse-amplitude beamforming ignore them, beamforming is quadratic, slant stack linear."""
    note(c, r)
    a = array_amps(c)
    g = np.array(c["gains"])[:, None]
    base = image(c).power
    k = c["gains"][0]
    power = {"phaseshift": 0, "slantstack": 1, "fk": 2, "fdbf": 0 if c["weighting"] == "invamp" else 2}[c["transform"]]
    ensure_close(image(c, amps=a * k).power, base * k ** power, "global gain", rtol=1e-8)
    if c["transform"] == "phaseshift" or (c["transform"] == "fdbf" and c["weighting"] == "invamp"):
        r.label("per-trace gain")
        ensure_close(image(c, amps=a * g).power, base, "per-trace gains change the image", rtol=1e-8)


@P.check(lambda: case_sym(("phaseshift", "fdbf", "fk")), 200)
def time_shift(c, r):
    """A common circular delay of all traces (trigger error) leaves the image unchanged."""
    note(c, r)
    a = array_amps(c)
    ensure_close(image(c, amps=np.roll(a, c["shift"], axis=1)).power, image(c).power, "common time shift changes the image", rtol=1e-8)


@P.check(lambda: case_sym(("slantstack",)), 120)
def superposition(c, r):
    """The slant stack of a sum is the sum of slant stacks."""
    note(c, r)
    a = array_amps(c)
    b = array_amps({**c, "seed": c["seed"] + 12345})
    ensure_close(image(c, amps=a + b).power, image(c, amps=a).power + image(c, amps=b).power, "superposition", rtol=1e-8)


@P.check(lambda: case_sym(("fk",)), 150)
def fk_is_plain_beamforming(c, r):
    """FK equals unweighted plane-wave beamforming whatever the beamforming options say."""
    note(c, r)
    ensure_close(image(c).power, image(c, transform="fdbf", weighting="none", steering="plane").power, "FK is not plane-wave FDBF")


@st.composite
def case_wave(draw):
    xs = draw(st_xs(3, 8))
    c = {"xs": xs, "ys": [0.0] * len(xs), "n": draw(st.sampled_from([32, 48, 64])), "dt": draw(st.sampled_from([1 / 256, 0.002, 0.005])), "src": draw(st_source_x(xs)),
         "nstacks": 1, "order": list(range(len(xs))), "seed": 1, "pre": 0}
    c["k0"] = draw(st.integers(1, 4))
    c["nk"] = draw(st.integers(1, 4))
    c["nvel"] = draw(st.integers(3, 20))
    c["vmin"] = draw(st.integers(20, 200)) * 1.0
    c["vmax"] = c["vmin"] * draw(st.sampled_from([2.0, 4.0, 8.0]))
    c["true"] = draw(st.lists(st.integers(0, c["nvel"] - 1), min_size=c["nk"], max_size=c["nk"]))
    c["phase"] = draw(st.lists(st.floats(0, 6.28), min_size=c["nk"], max_size=c["nk"]))
    c["ampl"] = draw(st.lists(st.sampled_from([0.5, 1.0, 4.0]), min_size=c["nk"], max_size=c["nk"]))
    c["vspace"] = draw(st.sampled_from(["linear", "log"]))
    c["kind"] = draw(st.sampled_from(["phaseshift", "fk", "fdbf plane", "fdbf cylindrical", "fdbf invamp"]))
    return c


@P.check(case_wave, 400)
def wave_recovery(c, r):
    """At each frequency the image attains its theoretical maximum exactly at the wave's velocity."""
    from scipy import special
    r.nt(len(set(np.diff(c["xs"]))) > 1 or c["src"] > c["xs"][-1])
    r.label(c["kind"])
    n, dt = c["n"], c["dt"]
    df = 1 / (n * dt)
    vel = np.linspace(c["vmin"], c["vmax"], c["nvel"]) if c["vspace"] == "linear" else np.geomspace(c["vmin"], c["vmax"], c["nvel"])
    off = np.array([abs(x - c["src"]) for x in c["xs"]])
    t = np.arange(n) * dt
    amps = np.zeros((len(off), n))
    for q in range(c["nk"]):
        f = (c["k0"] + q) * df
        kx = 2 * np.pi * f / vel[c["true"][q]] * off
        lag = np.angle(special.hankel1(0, kx)) if c["kind"] == "fdbf cylindrical" else kx
        amps += c["ampl"][q] * np.cos(2 * np.pi * f * t[None, :] + c["phase"][q] - lag[:, None])
    kind = c["kind"].split()
    kw = {"transform": kind[0], "weighting": "invamp" if kind[-1] == "invamp" else "none", "steering": "cylindrical" if kind[-1] == "cylindrical" else "plane"}
    s = settings_dict(fmin=c["k0"] * df, fmax=(c["k0"] + c["nk"] - 1) * df, vmin=c["vmin"], vmax=c["vmax"], nvel=c["nvel"], vspace=c["vspace"], **kw)["processing"]
    im = R.create_class(kind[0]).from_array(make_array(c, amps=amps), s)
    p = np.abs(im.power)
    peak = im.find_peak_power()
    for q in range(c["nk"]):
        if c["kind"] == "phaseshift":
            top = off.max() - off.min()
        elif c["kind"] == "fdbf invamp":
            top = len(off) ** 2
        else:
            top = (len(off) * c["ampl"][q] * n / 2) ** 2
        ensure_close(p[c["true"][q], q], top, "power at the wave's velocity is not the maximum possible", rtol=1e-6)
        ensure(np.all(p[:, q] <= top * (1 + 1e-6)), "power exceeds the theoretical maximum")
        j = int(np.argmin(np.abs(im.velocities - peak[q])))
        ensure(p[j, q] >= top * (1 - 1e-6), "picked peak is not where the wave is", picked=peak[q], true=vel[c["true"][q]])
