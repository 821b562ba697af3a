import copy
from lib import *
from scipy import signal as sps
from props.c08_multifile import case_files, write_file, amp
from swprocess.register import WavefieldTransformRegistry as R
import swprocess.wavefieldtransforms  # noqa: F401

import props.c30_pilot as c30

P = Property("C14", rule="1-4 shot files (SU/SEGY/SEG2, independent trace orders, unequal stacks) x the workflows x drawn settings (offset range, trim, "
             "interactive mute with drawn lines and window settings, padding, transform, signal-to-noise), compared with the steps done one by one in memory; "
             "non-trivial = at least two pre-processing steps are on.",
             assumptions=["trim and signal-to-noise windows lie on the sampling grid inside the record", "the user picks two points per muting line"])


@st.composite
def case_flow(draw):
    c = draw(case_files())
    c["wf"] = draw(st.sampled_from(["time-domain", "time-domain", "frequency-domain", "frequency-domain", "single"]))
    c["n"] = draw(st.integers(24, 48))
    c["delay_ms"] = -draw(st.integers(4, 8)) * int(round(c["dt"] * 1000))
    c["mx"] = draw(st.sampled_from([[1, 0], [-1, 0], [-2, 7]]))
    c["name"] = draw(st.sampled_from(["str", "tuple", "list"]))
    xs = [c["mx"][0] * x + c["mx"][1] for x in c["x"]]
    side = draw(st.sampled_from(["left", "right", "left", "right", "left", "right", "inside"]))
    want = {"left": min(xs) - draw(st.integers(1, 40)), "right": max(xs) + draw(st.integers(1, 40)), "inside": (min(xs) + max(xs)) / 2}[side]
    c["sx"] = int(np.floor((want - c["mx"][1]) / c["mx"][0]))
    pre = int(round(-c["delay_ms"] / 1000 / c["dt"]))
    i = draw(st.integers(0, pre))
    c["trim"] = draw(st.one_of(st.none(), st.just([i, draw(st.integers(c["n"] - 6, c["n"] - 1))])))
    c["off"] = draw(st.sampled_from([None, None, "min", "max", "both", "all"]))
    if len(xs) < {"min": 3, "max": 3, "both": 4}.get(c["off"], 0):     # at least two sensors stay
        c["off"] = None
    c["mute"] = draw(st.booleans())
    c["lines"] = draw(st.lists(st.integers(0, 60), min_size=4, max_size=4))
    c["linex"] = draw(st.lists(st.integers(-10, 10), min_size=4, max_size=4))
    c["window"] = draw(st.sampled_from([None, {}, {"alpha": 0.6}, {"alpha": 0.0}]))
    c["pad"] = draw(st.one_of(st.none(), st.integers(12, 90)))
    c["transform"] = draw(st.sampled_from(["phaseshift", "fdbf", "fdbf", "fk", "slantstack"]))
    c["weighting"] = draw(st.sampled_from(["none", "sqrt", "invamp"]))
    c["steering"] = draw(st.sampled_from(["plane", "cylindrical"]))
    c["snr"] = draw(st.sampled_from([None, None, "pad", "plain"]))
    c["nvel"] = draw(st.integers(1, 4))
    few = ["shot1.dat", "shot2.dat", "shot10.dat", "a.dat", "Z.dat"]
    c["names"] = list(draw(st.permutations(few))) + [f"more{k}.dat" for k in range(len(c["orders"]) - len(few))]
    return c


def lines_of(c):
    """Picked points (distance, time): the start line early, the end line late."""
    pre = -c["delay_ms"] / 1000 / c["dt"]
    t = [(-pre + 1 + c["lines"][0] % 8 + 0.25) * c["dt"], (-pre + 1 + c["lines"][1] % 8 + 0.25) * c["dt"],
         (c["n"] - pre - 9 + c["lines"][2] % 7 + 0.25) * c["dt"], (c["n"] - pre - 9 + c["lines"][3] % 7 + 0.25) * c["dt"]]
    xs = [c["mx"][0] * x + c["mx"][1] for x in c["x"]]
    a, b = min(xs) - 12.0, max(xs) + 12.0
    x = [a + c["linex"][0] % 5, b - c["linex"][1] % 5, a + c["linex"][2] % 5, b - c["linex"][3] % 5]
    return [[(x[0], t[0])], [(x[1], t[1])], [(x[2], t[2])], [(x[3], t[3])]]


def limits(c):
    xs = [c["mx"][0] * x + c["mx"][1] for x in c["x"]]
    sx = c["mx"][0] * c["sx"] + c["mx"][1]
    off = sorted(abs(x - sx) for x in xs)
    lo = -1.0 if c["off"] in (None, "max") else off[0] + 0.3
    hi = float("inf") if c["off"] in (None, "min") else off[-1] - 0.3
    if c["off"] == "all":
        lo, hi = off[-1] + 5.0, off[-1] + 9.0
    return lo, hi


def base_array(c, files):
    """The array the workflow should start from: this receiver's traces, stack-weighted, over the given files."""
    ys = [0] * len(c["x"]) if c["fmt"] == "SEG2" else [c["my"][0] * y + c["my"][1] for y in c["y"]]
    tot = sum(c["nst"][f] for f in files)
    sensors = []
    for i, x in enumerate(c["x"]):
        mean = sum(amp(c, f, i) * c["nst"][f] for f in files) / tot
        sensors.append(Sensor1C(mean, c["dt"], x=c["mx"][0] * x + c["mx"][1], y=ys[i], z=0, nstacks=tot, delay=c["delay_ms"] / 1000))
    return Array1D(sensors, Source(c["mx"][0] * c["sx"] + c["mx"][1], 0 if c["fmt"] == "SEG2" else c["my"][0] * c["sy"] + c["my"][1], 0))


class Refused(Exception):
    pass


def by_hand(c, a, s):
    """All the steps, one by one.  Returns (image, array, (noise, signal) or None)."""
    xs = a.position()
    if xs[0] < a.source.x < xs[-1]:
        raise Refused("source inside")
    off = s["pre-processing"]["offsets"]
    keep = [q for q in a.sensors if off["min"] < abs(q.x - a.source.x) < off["max"]]
    if not keep:
        raise Refused("no sensors left")
    keep = [Sensor1C(sps.detrend(q.amplitude), q.dt, x=q.x, y=q.y, z=q.z, nstacks=q.nstacks, delay=q.delay) for q in keep]
    a = Array1D(keep, a.source)
    windows = None
    if s["signal-to-noise"]["perform"]:
        q = s["signal-to-noise"]
        n_ = Array1D.from_array1d(a)
        n_.trim(q["noise"]["begin"], q["noise"]["end"])
    if s["pre-processing"]["trim"]["apply"]:
        a.trim(s["pre-processing"]["trim"]["begin"], s["pre-processing"]["trim"]["end"])
    if c["mute"]:
        p = [q[0] for q in lines_of(c)]
        a.mute(signal_start=(p[0], p[1]), signal_end=(p[2], p[3]), window_kwargs=c["window"] or None)
    if s["signal-to-noise"]["perform"]:
        s_ = Array1D.from_array1d(a)
        s_.trim(q["signal"]["begin"], q["signal"]["end"])
        windows = (s_, n_)
    if s["pre-processing"]["pad"]["apply"]:
        a.zero_pad(s["pre-processing"]["pad"]["df"])
    im = R.create_class(s["processing"]["transform"]).from_array(a, copy.deepcopy(s["processing"]))
    return im, a, windows


def settings_for(c):
    dt, n = c["dt"], c["n"]
    t0 = c["delay_ms"] / 1000
    pre = int(round(-t0 / dt))
    n_eff = n if c["trim"] is None else c["trim"][1] - c["trim"][0] + 1
    lo, hi = limits(c)
    df = 1 / ((c["pad"] or n_eff) * dt)
    xs = [c["mx"][0] * x + c["mx"][1] for x in c["x"]]
    v0 = max((max(xs) - min(xs)) / (0.5 * n_eff * dt), 20.0)
    kw = dict(workflow=c["wf"], transform=c["transform"], fmin=df, fmax=4 * df, vmin=v0, vmax=v0 * 4, nvel=c["nvel"], weighting=c["weighting"],
              steering=c["steering"], min_offset=lo, max_offset=hi, mute=c["mute"], method="interactive", window_kwargs=c["window"])
    if c["trim"]:
        kw.update(trim=True, trim_begin=t0 + c["trim"][0] * dt, trim_end=t0 + c["trim"][1] * dt)
    if c["pad"]:
        kw.update(pad=True, df=df)
    if c["snr"]:
        kw.update(snr=True, noise_begin=t0, noise_end=t0 + (pre - 1) * dt, signal_begin=0.0 + 2 * dt, signal_end=(2 + pre - 1) * dt,
                  pad_snr=c["snr"] == "pad", df_snr=1 / (20 * dt))
    return settings_dict(**kw)


@P.check(case_flow, 550, 8000)
def steps(c, r):
    """The workflow's image is the one obtained by performing the selected steps by hand, in order, on the same files."""
    nf = len(c["orders"])
    names = c["names"][:nf]
    for f in range(nf):
        write_file(c, f, names[f])
    s = settings_for(c)
    snap = copy.deepcopy(s)
    fnames = names[0] if (c["name"] == "str" and nf == 1) else tuple(names) if c["name"] == "tuple" else list(names)
    listed = copy.copy(fnames)
    (ax, bx), (ay, by) = c["mx"], c["my"]
    maps = dict(map_x=lambda x: ax * x + bx, map_y=lambda y: ay * y + by)
    used = [0] if c["wf"] == "single" else list(range(nf))
    r.nt(sum(map(bool, (c["trim"], c["mute"], c["pad"], c["off"], c["snr"]))) > 1)
    r.label(c["wf"], c["transform"], f"{nf} files", "mute" if c["mute"] else "no mute", "snr" if c["snr"] else "no snr")
    # by hand
    try:
        if c["wf"] == "frequency-domain":
            parts = [by_hand(c, base_array(c, [f]), s) for f in used]
            want = sum(q[0].power for q in parts) / len(parts)
            ref, arr, win = parts[0][0], parts[-1][1], parts[0][2]
        else:
            ref, arr, win = by_hand(c, base_array(c, used), s)
            want = ref.power
    except Refused as e:
        r.label(str(e))
        with scripted_user(lines_of(c)):
            with must_raise(ValueError, msg=str(e)):
                Masw.run(fnames, s, **maps)
        return
    with scripted_user(lines_of(c) if c["mute"] else []) as log:
        got = Masw.run(fnames, s, **maps)
    ensure(log["clicks"] == (4 if c["mute"] else 0), "muting lines are picked once, on the first record", asked=log["clicks"])
    ensure(s == snap, "the settings were modified", before=snap, after=s)
    ensure(fnames == listed, "the list of files was modified")
    ensure_close(got.frequencies, ref.frequencies, "frequencies", rtol=1e-9)
    ensure_close(got.velocities, ref.velocities, "velocities", rtol=1e-12)
    ensure_close(got.power, want, "image differs from the steps done by hand", rtol=1e-6)
    ensure(got.n == (len(used) if c["wf"] == "frequency-domain" else 1), "number of stacked images", got=got.n)
    ensure(got.array is not None and got.array.position() == arr.position(), "attached array")
    ensure_close(got.array.timeseriesmatrix(), arr.timeseriesmatrix(), "records of the attached array", rtol=1e-6)
    ensure(got.array.source == arr.source, "source of the attached array")
    if win is None:
        ensure(got.snr is None and got.snr_frequencies is None, "signal-to-noise was not requested")
    else:       # stacked in the frequency domain: the ratio of the first record
        from swprocess.snr import SignaltoNoiseRatio
        q = SignaltoNoiseRatio.from_array1ds(*win, fmin=s["processing"]["fmin"], fmax=s["processing"]["fmax"], pad_snr=c["snr"] == "pad", df_snr=1 / (20 * c["dt"]))
        ensure_close(got.snr, q.snr, "signal-to-noise ratio", rtol=1e-6)
        ensure_close(got.snr_frequencies, q.frequencies, "signal-to-noise frequencies")


@st.composite
def case_bad(draw):
    c = draw(case_flow())
    c["sx"] = int(min((x for x in c["x"]))) - 7 if c["mx"][0] > 0 else int(max(c["x"])) + 7
    c.update(off=None, mute=False, snr=None, fmt=draw(st.sampled_from(["SU", "SEGY"])))
    c["how"] = draw(st.sampled_from(["other source", "missing trace", "mute method", "workflow", "transform", "signal window"]))
    c["bad"] = draw(st.integers(1, 4))
    return c


@P.check(case_bad, 200)
def refuse(c, r):
    """Dissimilar files and unknown options are refused, never silently processed."""
    nf = max(2, len(c["orders"]))
    k = len(c["x"])
    c = {**c, "orders": (c["orders"] + [list(range(k))] * nf)[:nf], "nst": (c["nst"] * nf)[:nf]}
    bad = 1 + c["bad"] % (nf - 1) if nf > 1 else 1
    if c["wf"] == "single":
        c["wf"] = "time-domain"
    s = settings_for(c)
    over = {}
    r.nt()
    r.label(c["how"], c["wf"])
    if c["how"] == "other source":
        over = {"sx": c["sx"] + (-3 if c["sx"] < min(c["x"]) else 3)}
    elif c["how"] == "missing trace":
        over = {"order": c["orders"][bad][:-1]}
    elif c["how"] == "mute method":
        s["pre-processing"]["mute"].update(apply=True, method="automatic")
    elif c["how"] == "workflow":
        s["workflow"] = "time domain"
    elif c["how"] == "signal window":                        # longer than the record, though not than the padded record
        s = settings_for({**c, "snr": "pad", "pad": 90})
        s["signal-to-noise"]["signal"]["end"] = (c["n"] + 3) * c["dt"] + c["delay_ms"] / 1000
        s["signal-to-noise"]["signal"]["begin"] = (c["n"] - 9) * c["dt"] + c["delay_ms"] / 1000
        s["pre-processing"]["trim"]["apply"] = False
    else:
        s["processing"]["transform"] = "beamforming"
    names = c["names"][:nf]
    for f in range(nf):
        write_file(c, f, names[f], **(over if f == bad else {}))
    (ax, bx), (ay, by) = c["mx"], c["my"]
    kind = [ValueError] if over else [IndexError, ValueError] if c["how"] == "signal window" else [KeyError]
    with scripted_user([]):
        with must_raise(*kind, msg=c["how"]):
            Masw.run(names, s, map_x=lambda x: ax * x + bx, map_y=lambda y: ay * y + by)


P.check(c30.case_files, 60)(c30.workflow)
