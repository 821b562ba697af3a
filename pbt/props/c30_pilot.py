import copy
from lib import *
from props.c08_multifile import _write
from swprocess.array1d import Array1DwSource
from swprocess.masw import MaswXcorr
from swprocess.source import SourceWithSignal
from swprocess.register import WavefieldTransformRegistry as R
import swprocess.wavefieldtransforms  # noqa: F401

P = Property("C30", rule="Pilot signals (noise, sweeps, spikes) and receiver records of other lengths, delays per sensor, several recordings averaged or stacked, either side of the array, records shorter and longer "
             "than the lag window; non-trivial = at least two sensors with different delays, or several source recordings.",
             assumptions=["all records share the time step", "a lag shift common to all sensors is immaterial", "the record is long enough for the lag window to hold a sample"])


@st.composite
def case_direct(draw):
    c = draw(st_array(min_ch=1, max_ch=6, min_n=20, max_n=220, dts=[1 / 128, 1 / 64, 0.01]))
    c["np"] = draw(st.integers(8, 160))
    if draw(st.integers(0, 24)) == 24:                       # a sweep of thousands of samples
        c["np"], c["n"] = draw(st.sampled_from([1000, 1100, 2048, 3000])), draw(st.sampled_from([1500, 4000]))
    if len(c["xs"]) > 1 and draw(st.integers(0, 3)) == 3:    # a source between the sensors, or at one
        c["src"] = draw(st.one_of(st_source_x(c["xs"], outside=False), st.sampled_from(c["xs"])))
    c["pilot"] = draw(st.sampled_from(["noise", "sweep", "spike"]))
    c["delays"] = draw(st.lists(st.integers(0, 30), min_size=len(c["xs"]), max_size=len(c["xs"])))
    c["vmin"], c["vmax"] = draw(st.sampled_from([[None, None], [50, 500], [100, None], [None, 800], [20, 400]]))
    return c


def pilot_of(c):
    t = np.arange(c["np"])
    if c["pilot"] == "noise":
        return noise(c["np"], c["seed"] + 5)
    if c["pilot"] == "spike":
        a = np.zeros(c["np"])
        a[c["np"] // 3] = 1.0
        return a
    return np.sin(2 * np.pi * (0.05 + 0.15 * t / c["np"]) * t)


def records(c, p):
    """Receiver records: the pilot delayed sensor by sensor, plus noise."""
    out = np.zeros((len(c["xs"]), c["n"]))
    for i, d in enumerate(c["delays"]):
        m = min(c["np"], c["n"] - d)
        if m > 0:
            out[i, d:d + m] += p[:m]
        out[i] += noise(c["n"], c["seed"] * 64 + i, 0.05)
    return out


def full(rec, p):
    """Correlation at every lag from -(len(p)-1) to len(rec)-1, by definition."""
    lags = np.arange(-(len(p) - 1), len(rec))
    padded = np.concatenate((np.zeros(len(p) - 1), rec, np.zeros(len(p) - 1)))
    return lags, np.array([padded[k:k + len(p)] @ p for k in range(len(lags))])


def common_shift(got, recs, p, rtol=1e-6):
    """Lags at which every sensor's output equals its own correlation with the pilot."""
    m = got.shape[1]
    refs = [full(rec, p) for rec in recs]
    lags = refs[0][0]
    scale = max(np.max(np.abs(q[1])) for q in refs)
    return [int(lags[k]) for k in range(len(lags) - m + 1) if all(np.max(np.abs(q[1][k:k + m] - g)) <= rtol * scale for q, g in zip(refs, got))]


@P.check(case_direct, 600)
def correlate(c, r):
    """Each trace becomes its correlation with the pilot over one lag window common to all sensors."""
    p = pilot_of(c)
    recs = records(c, p)
    sensors = [Sensor1C(recs[i], c["dt"], x=c["xs"][i], y=0.5 * i, z=0.25, nstacks=c["nstacks"], delay=0) for i in c["order"]]
    arr = Array1DwSource(sensors, SourceWithSignal(c["src"], 1.5, 0, p.copy(), c["dt"]))
    off = [abs(x - c["src"]) for x in c["xs"]]
    vmax, vmin = c["vmax"] or 3000, c["vmin"] or 50
    first, last = min(off) / vmax - 0.5, max(off) / vmin
    if first / c["dt"] > c["n"] - 4 or last / c["dt"] < 3:
        r.label("no lag in the record")
        return
    kw = {k: c[k] for k in ("vmin", "vmax") if c[k] is not None}
    arr.xcorrelate(**kw)
    r.nt(len(c["xs"]) > 1 and len(set(c["delays"])) > 1)
    ensure(arr.position() == c["xs"] and arr.nchannels == len(c["xs"]), "positions", got=arr.position())
    for i, s in enumerate(arr):
        ensure((s.y, s.z, s.nstacks, s.dt, s.delay) == (0.5 * i, 0.25, c["nstacks"], c["dt"], 0), "sensor attributes", i=i, got=(s.y, s.z, s.nstacks, s.dt, s.delay))
    ensure(len({s.nsamples for s in arr}) == 1, "one time axis for all sensors")
    got = arr.timeseriesmatrix()
    hits = common_shift(got, recs, p, rtol=1e-11)
    ensure(hits, "no common lag at which every output is the correlation of its record with the pilot", got=got)
    # the window spans the arrivals between the fastest and the slowest velocity, up to a few samples
    ends = [(h * c["dt"], (h + got.shape[1] - 1) * c["dt"]) for h in hits]
    lo, hi = -(c["np"] - 1) * c["dt"], (c["n"] - 1) * c["dt"]
    ensure(any(a <= max(min(off) / vmax, lo) + 2.5 * c["dt"] and b >= min(last, hi) - 2.5 * c["dt"] for a, b in ends), "window of arrival times", window=ends, want=(first, last), have=(lo, hi))
    ensure(np.array_equal(arr.source.amplitude, p) and (arr.source.x, arr.source.y) == (c["src"], 1.5), "the source was altered")
    r.label("window inside the lags" if lo < first and last < hi else "window clipped", c["pilot"])


@st.composite
def case_files(draw):
    c = draw(case_direct())
    k = len(c["xs"])
    c["xs"] = [float(q) for q in sorted(draw(st.lists(st.integers(0, 60), min_size=k, max_size=k, unique=True)))]
    side = draw(st.sampled_from(["left", "right"]))
    gap = draw(st.integers(1, 20))
    c["src"] = float(c["xs"][0] - gap if side == "left" else c["xs"][-1] + gap)
    c["dt"] = draw(st.sampled_from([0.004, 0.005, 0.01]))
    c["n"] = draw(st.integers(160, 260))
    c["np"] = draw(st.sampled_from([c["n"], c["n"], 120]))
    c["nrec"], c["nsrc"] = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    c["rec_again"] = draw(st.lists(st.integers(0, c["nrec"] - 1), max_size=1))
    c["src_again"] = draw(st.lists(st.integers(0, c["nsrc"] - 1), max_size=2))
    c["chan"] = draw(st.sampled_from([0, 0, 1, 1, 2, -1, -2]))
    c["fmt"] = draw(st.sampled_from(["SU", "SU", "SEGY", "INT"]))
    c["mx"] = draw(st.sampled_from([[1, 0], [-1, 0], [2, 5]]))
    c["pre"] = draw(st.sampled_from([0, 0, 7]))
    c["vmin"], c["vmax"] = draw(st.sampled_from([[60.0, 500.0], [100.0, 900.0]]))
    c["transform"] = draw(st.sampled_from(["phaseshift", "fdbf", "slantstack"]))
    c["off"] = draw(st.booleans())
    c["sy"] = draw(st.sampled_from([0, 3, -7]))
    c["trim"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 20), st.integers(0, 20)).map(list)))
    c["pad"] = draw(st.sampled_from([None, 1.0, 0.5, 3.0]))
    c["snr"] = draw(st.sampled_from([None, None, "plain", "pad"]))
    c["mute"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=4, max_size=4)))
    return c


def write(c, fname, amps, xs, order):
    d = {"fmt": "SU" if c["fmt"] == "SU" else "SEGY", "sc": 1, "gx": [int(xs[i]) for i in order], "gy": [0] * len(order), "sx": int(c["src"]), "sy": c["sy"], "nst": c["nstacks"],
         "delay": -int(round(c["pre"] * c["dt"] * 1000)), "dt": c["dt"], "amps": [amps[i] for i in order]}
    if c["fmt"] != "INT":
        return _write(d, fname)
    import obspy
    d["amps"] = [np.round(1000 * a) for a in d["amps"]]
    _write(d, "tmp.segy")
    st_ = obspy.read("tmp.segy", format="SEGY")
    for t in st_:
        t.data = np.asarray(t.data, np.int32)
    st_.stats.data_encoding = 2
    st_.write(fname, format="SEGY", data_encoding=2)


def stored(c, a):
    return np.round(1000 * a).astype(float) if c["fmt"] == "INT" else np.asarray(a, np.float32).astype(float)


def prepare(c):
    p = pilot_of(c)
    rec_names, src_names = [], []
    recs = np.zeros((len(c["xs"]), c["n"] + c["pre"]))
    rec = list(range(c["nrec"])) + c["rec_again"]           # a file listed again counts again
    src = list(range(c["nsrc"])) + c["src_again"]
    for f in range(c["nrec"]):
        a = records({**c, "seed": c["seed"] + 1000 * f}, p)
        a = np.hstack((np.array([noise(c["pre"], c["seed"] + 7 * i + f) for i in range(len(a))]).reshape(len(a), -1), a))
        recs += np.array([stored(c, q) for q in a]) * rec.count(f) / len(rec)
        rec_names.append(f"rec{f}.dat")
        write(c, rec_names[-1], a, c["xs"], c["order"])
    pil = np.zeros(c["np"])
    for f in range(c["nsrc"]):
        q = [noise(c["np"], c["seed"] + 31 * f + k) for k in range(3)]
        q[c["chan"]] = p + 0.1 * noise(c["np"], c["seed"] + 77 * f + 2)
        pil += stored(c, q[c["chan"]]) * src.count(f) / len(src)
        src_names.append(f"src{f}.dat")
        write({**c, "pre": 0}, src_names[-1], q, [0, 1, 2], [0, 1, 2])
    a, b = c["mx"]
    xs = [a * x + b for x in c["xs"]]
    back = xs[0] > xs[-1]
    return [rec_names[f] for f in rec], [src_names[f] for f in src], (recs[::-1] if back else recs), (xs[::-1] if back else xs), pil, a * c["src"] + b


@P.check(case_files, 160)
def from_files(c, r):
    """The array read has the averaged receivers at their positions and the average of the chosen source channel as its pilot."""
    rec, src, recs, xs, pil, sx = prepare(c)
    a, b = c["mx"]
    arr = Array1DwSource.from_files(rec, src, c["chan"], map_x=lambda x: a * x + b)
    r.nt(c["nsrc"] > 1 or c["nrec"] > 1)
    r.label(c["fmt"], f"{c['nsrc']} source files")
    ensure(arr.position() == xs and arr.source.x == sx, "geometry", got=(arr.position(), arr.source.x), want=(xs, sx))
    ensure((arr.source.y, arr.source.z) == (c["sy"], 0), "source off the line", got=(arr.source.y, arr.source.z), want=c["sy"])
    ensure([(s.y, s.z) for s in arr] == [(0, 0)] * len(xs), "sensors off the line")
    ensure_close(arr.timeseriesmatrix(), recs, "receiver records", rtol=2e-6)
    ensure_close(arr.source.amplitude, pil, "pilot", rtol=2e-6)
    ensure(abs(arr.source.dt - c["dt"]) < 1e-12 and arr.source.nsamples == c["np"], "time axis of the pilot")
    ensure(all(s.nstacks == c["nstacks"] * len(rec) for s in arr), "stack counts", got=[s.nstacks for s in arr])


@P.check(case_files, 120)
def workflow(c, r):
    """The workflow's image is that of the correlated, detrended records after the pre-event part is cut off."""
    rec, src, recs, xs, pil, sx = prepare(c)
    a, b = c["mx"]
    lo, hi = 0.0, float("inf")
    off = np.array([abs(x - sx) for x in xs])
    if c["off"] and len(xs) > 2:
        hi = float(np.sort(off)[-1]) - 0.25
    keep = (off > lo) & (off < hi)
    vs = sorted(v * abs(a) for v in (c["vmin"], c["vmax"]))
    kw = {}
    dt, n = c["dt"], c["n"]
    i, j = (0, n - 1) if c["trim"] is None else (c["trim"][0], n - 1 - c["trim"][1])
    if c["trim"]:
        kw.update(trim=True, trim_begin=i * dt, trim_end=j * dt)
    if c["snr"]:
        kw.update(snr=True, noise_begin=0.0, noise_end=39 * dt, signal_begin=(i + 30) * dt, signal_end=(i + 69) * dt, pad_snr=c["snr"] == "pad", df_snr=1 / (50 * dt))
    clicks = []
    if c["mute"]:
        w = [xs[0] - 12.0, xs[-1] + 12.0]
        t = [i + 2 + c["mute"][0] + 0.25, i + 2 + c["mute"][1] + 0.25, j - 40 + c["mute"][2] + 0.25, j - 40 + c["mute"][3] + 0.25]
        clicks = [(w[k % 2], t[k] * dt) for k in range(4)]
        kw.update(mute=True, method="interactive")
    plain = settings_dict(workflow="time-domain-xcorr", transform=c["transform"], fmin=8.0, fmax=20.0, vmin=vs[0], vmax=vs[1], nvel=4, min_offset=lo, max_offset=hi, steering="plane", weighting="none", **kw)
    s = copy.deepcopy(plain)
    if c["pad"]:
        s["pre-processing"]["pad"].update(apply=True, df=c["pad"])
    snap = copy.deepcopy(s)
    if len(xs) < 2 or keep.sum() < 2:
        return
    if c["pre"] and c["fmt"] == "INT":
        return                                           # stored delays below 1 ms
    if (np.max(off[keep]) / vs[0] + 0.5) < 3 * np.ptp(off[keep]) / vs[0] + 8 * c["dt"] and c["transform"] == "slantstack":
        return                                           # lag window too short for the slant stack
    def run(q):
        with scripted_user([[q] for q in clicks]) as log:
            im = MaswXcorr.run(rec, src, c["chan"], q, map_x=lambda x: a * x + b, map_y=lambda y: y)
        ensure(log["clicks"] == len(clicks), "muting lines are picked once", asked=log["clicks"])
        return im

    if xs[0] < sx < xs[-1]:
        with must_raise(ValueError, msg="the source is inside the array"):
            run(s)
        return
    im = run(plain)
    r.nt(len(set(c["delays"])) > 1)
    r.label(c["transform"], "pre-event" if c["pre"] else "no pre-event", "offsets" if hi < 1e9 else "all", *(k for k in ("trim", "pad", "snr", "mute") if c[k]))
    arr = im.array
    ensure(arr.position() == [x for x, k in zip(xs, keep) if k], "positions", got=arr.position())
    sensors = []
    for rec_, x in zip(recs[keep], np.array(xs)[keep]):
        q = rec_[c["pre"]:]
        t = np.arange(len(q)) - (len(q) - 1) / 2
        sensors.append(Sensor1C(q - q.mean() - t * (t @ q) / (t @ t), dt, x=x, y=0, z=0, nstacks=c["nstacks"] * len(rec)))
    hand = Array1D(sensors, Source(sx, 0, 0))
    noise_ = Array1D.from_array1d(hand)
    if c["trim"]:
        hand.trim(i * dt, j * dt)
    if c["mute"]:
        hand.mute(signal_start=clicks[:2], signal_end=clicks[2:])
    if c["snr"]:
        from swprocess.snr import SignaltoNoiseRatio
        signal_ = Array1D.from_array1d(hand)
        noise_.trim(0.0, 39 * dt)
        signal_.trim((i + 30) * dt, (i + 69) * dt)
        ratio = SignaltoNoiseRatio.from_array1ds(signal_, noise_, fmin=8.0, fmax=20.0, pad_snr=c["snr"] == "pad", df_snr=1 / (50 * dt))
        ensure_close(im.snr, ratio.snr, "signal-to-noise ratio", rtol=1e-6)
        ensure_close(im.snr_frequencies, ratio.frequencies, "signal-to-noise frequencies")
    else:
        ensure(im.snr is None and im.snr_frequencies is None, "signal-to-noise was not requested")
    got = arr.timeseriesmatrix()
    hits = common_shift(got, hand.timeseriesmatrix(), pil)
    ensure(hits, "no common lag at which every trace is the correlation of its record with the pilot")
    ensure(all(q.nstacks == c["nstacks"] * len(rec) for q in arr), "stack counts")
    corr = Array1D([Sensor1C(g, dt, x=x, y=0, z=0) for g, x in zip(got, arr.position())], Source(sx, 0, 0))
    T = R.create_class(c["transform"])
    compare(im, T.from_array(corr, copy.deepcopy(plain["processing"])))
    if c["pad"]:                                         # padding comes after the correlation
        corr.zero_pad(c["pad"])
        padded = run(s)
        compare(padded, T.from_array(corr, copy.deepcopy(s["processing"])))
        ensure_close(padded.array.timeseriesmatrix(), corr.timeseriesmatrix(), "padded records", rtol=1e-6)
    ensure(s == snap, "the settings were modified")


def compare(im, ref):
    ensure_close(im.power, ref.power, "image", rtol=1e-6)
    ensure_close(im.frequencies, ref.frequencies, "frequencies", rtol=1e-9)
    ensure_close(im.velocities, ref.velocities, "velocities", rtol=1e-12)


@P.check(lambda: st.sampled_from(["time-domain", "frequency-domain", "single"]).map(lambda w: {"wf": w}), 3)
def other_workflows(c, r):
    """Only the correlation workflow takes source recordings."""
    r.nt(True)
    with must_raise(NotImplementedError, msg=c["wf"]):
        MaswXcorr.run(["a"], ["b"], 0, settings_dict(workflow=c["wf"]))
