from lib import *

P = Property("C10", rule="Arrays of 2-10 sensors with the source on the near side, the far side or inside, and 1-3 successive offset ranges (open ended "
             "and limits exactly at a sensor included); non-trivial = some sensors are kept and some removed, with the source on the far side or inside.")


@st.composite
def case_off(draw):
    c = draw(st_array(max_ch=10, max_n=16, big=True, ys=draw(st.booleans())))
    c["where"] = draw(st.sampled_from(["near", "far", "inside"]))
    d = draw(st.integers(0, 40)) * 0.25 + 0.125
    k = draw(st.integers(0, int((c["xs"][-1] - c["xs"][0]) / 0.25) - 1))
    c["src"] = {"near": c["xs"][0] - d, "far": c["xs"][-1] + d, "inside": c["xs"][0] + k * 0.25 + 0.125}[c["where"]]
    if draw(st.integers(0, 7)) == 0:                         # a source at one of the sensors
        c["where"], c["src"] = "inside", draw(st.sampled_from(c["xs"]))
    if draw(st.integers(0, 2)) == 0:                         # surveyed positions, finer than a millimetre
        c["xs"] = [x + draw(st.integers(-15, 15)) / 2 ** 14 for x in c["xs"]]
    far = max(abs(x - c["src"]) for x in c["xs"])
    near = min(abs(x - c["src"]) for x in c["xs"])
    ranges = []
    for _ in range(draw(st.integers(1, 3))):
        lo = draw(st.integers(0, int(far / 0.25) + 2)) * 0.25
        hi = draw(st.one_of(st.none(), st.integers(int(near / 0.25), int(far / 0.25) + 4).map(lambda q: q * 0.25)))
        if draw(st.booleans()):
            lo = draw(st.sampled_from([0.0, -1.0, lo / 4 - (lo / 4) % 0.25]))
        if draw(st.integers(0, 3)) == 0:                     # a limit at an offset, or next to it on either side
            near_by = abs(draw(st.sampled_from(c["xs"])) - c["src"]) + draw(st.sampled_from([-1, 0, 1])) / 2 ** draw(st.sampled_from([4, 10, 14]))
            lo, hi = draw(st.sampled_from([(near_by, hi), (lo, near_by), (0.0, near_by), (near_by, None)]))
        ranges.append([lo, hi])
    c["ranges"] = ranges
    return c


@P.check(case_off, 1200)
def history(c, r):
    """Exactly the sensors within the range remain; an empty outcome is refused and changes nothing."""
    a = make_array(c)
    amps = array_amps(c)
    alive = list(range(len(c["xs"])))
    r.label(c["where"])
    for lo, hi in c["ranges"]:
        hi_ = np.inf if hi is None else hi
        keep = [i for i in alive if lo < abs(c["xs"][i] - c["src"]) < hi_]
        if not keep:
            r.label("refused")
            with must_raise(ValueError, msg="removing every sensor was accepted"):
                a.trim_offsets(lo, hi_)
        else:
            if len(keep) < len(alive) and c["where"] != "near":
                r.nt()
            a.trim_offsets(lo, hi_)
            alive = keep
        ensure(a.position() == [c["xs"][i] for i in alive], "wrong sensors remain", got=a.position(), want=[c["xs"][i] for i in alive], limits=(lo, hi))
        ensure_close(a.timeseriesmatrix(), amps[alive], "records no longer belong to their sensors", rtol=0)
        ensure_close(a.offsets, [abs(c["xs"][i] - c["src"]) for i in alive], "offsets after trimming")
        ensure(a.nchannels == len(alive) and a.source.x == c["src"], "array metadata after trimming")
        for s in a.sensors:
            ensure(s.nstacks == c["nstacks"] and s.dt == c["dt"] and s.nsamples == c["n"], "sensor metadata after trimming")


@st.composite
def case_image(draw):
    c = draw(case_off())
    c["where"] = draw(st.sampled_from(["near", "far"]))
    d = draw(st.integers(0, 40)) * 0.25 + 0.125
    c["src"] = c["xs"][0] - d if c["where"] == "near" else c["xs"][-1] + d
    n = len(c["xs"])
    c["i"], c["j"] = sorted(draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2, unique=True)))
    c["transform"] = draw(st.sampled_from(["phaseshift", "fdbf"]))
    # a source between the last two sensors (or the first two), of which only those on the long side remain
    if draw(st.booleans()) and n >= 4:
        side = draw(st.sampled_from(["far", "near"]))
        a, b = (c["xs"][-2], c["xs"][-1]) if side == "far" else (c["xs"][1], c["xs"][0])
        src = (a + b) / 2 + 1 / 64
        left = [i for i, x in enumerate(c["xs"]) if abs(x - src) > abs(b - src)]
        if len(left) >= 2:
            c["where"], c["src"], c["i"], c["j"] = "inside", src, left[0], left[-1]
    return c


@P.check(case_image, 200)
def same_as_smaller_array(c, r):
    """Trimming by offset then transforming equals transforming an array of only those sensors."""
    from swprocess.register import WavefieldTransformRegistry as R
    a = make_array(c)
    ds = sorted(abs(c["xs"][i] - c["src"]) for i in (c["i"], c["j"]))
    r.nt(c["j"] - c["i"] < len(c["xs"]) - 1)
    r.label(c["where"], c["transform"])
    a.trim_offsets(ds[0] - 1 / 128, ds[1] + 1 / 128)
    sub = list(range(c["i"], c["j"] + 1))
    b = Array1D([make_array(c).sensors[i] for i in sub], Source(c["src"], c.get("sy", 0.0), 0))
    df = 1 / (c["n"] * c["dt"])
    s = settings_dict(transform=c["transform"], fmin=df, fmax=3 * df, vmin=100, vmax=400, nvel=4, weighting="sqrt", steering="plane")["processing"]
    T = R.create_class(c["transform"])
    ensure(a == b, "trimmed array differs from the smaller array")
    ensure_close(T.from_array(a, s).power, T.from_array(b, s).power, "images differ")
