"""Generators and small builders shared by the property modules.  A case is plain data (JSON-able)."""
import os
import re
import warnings
from contextlib import contextmanager
from unittest import mock

import numpy as np
from hypothesis import strategies as st

import swprocess
from swprocess import ActiveTimeSeries, Array1D, Masw, Peaks, PeaksSuite, Sensor1C, Source

from harness import HarnessError, Property, Violation, ensure  # noqa: F401

EXACT_DTS = [1 / 1024, 1 / 512, 1 / 256, 1 / 128]
DTS = EXACT_DTS + [0.001, 0.002, 0.005, 0.0005]


# ---------------------------------------------------------------- signals
def expand(spec):
    """Samples for a signal spec: a pure function of the drawn data (no RNG state outside the case).

    `vals` lists the samples; otherwise `n` samples are unrolled from the drawn `seed` by a 64-bit mixing hash
    into [-1, 1) (so a long noise-like record costs one draw and still replays and shrinks)."""
    if "vals" in spec:
        return np.array(spec["vals"], dtype=float)
    n, seed = int(spec["n"]), int(spec["seed"])
    with np.errstate(over="ignore"):
        z = (np.arange(1, n + 1, dtype=np.uint64) + np.uint64(seed) * np.uint64(0x9E3779B97F4A7C15)) * np.uint64(0x9E3779B97F4A7C15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    x = (z >> np.uint64(11)).astype(float) / float(2**53)
    return (2 * x - 1) * float(spec.get("scale", 1.0)) + float(spec.get("bias", 0.0))


def noise(n, seed, scale=1.0, bias=0.0):
    return expand({"n": n, "seed": seed, "scale": scale, "bias": bias})


seeds = st.integers(1, 2**31)


def sized(draw, lo, hi, big, often=12):
    """A size: mostly lo..hi, now and then one of `big` (as large as recordings made in the field)."""
    return draw(st.sampled_from(list(big))) if draw(st.integers(0, often - 1)) == often - 1 else draw(st.integers(lo, hi))


def flags(n, seed, part):
    """n zeros and ones, about `part` of them ones, from one drawn seed."""
    return [int(q) for q in noise(n, seed) < 2 * part - 1]


def shuffled(draw, n):
    """An order of n things (a long one is drawn through a single seed)."""
    return list(draw(st.permutations(range(n)))) if n <= 12 else [int(i) for i in np.argsort(noise(n, draw(seeds)))]


@st.composite
def st_signal(draw, min_n=2, max_n=40, scales=(1.0, 1e6, 1e-9)):
    n = draw(st.integers(min_n, max_n))
    if draw(st.booleans()):
        return {"vals": draw(st.lists(st.integers(-50, 50), min_size=n, max_size=n))}
    return {"n": n, "seed": draw(seeds), "scale": draw(st.sampled_from(list(scales)))}


@st.composite
def st_xs(draw, min_n=2, max_n=8, uniform=None, big=()):
    """Strictly increasing sensor positions on a quarter-metre grid."""
    n = sized(draw, min_n, max_n, big, 20) if big else draw(st.integers(min_n, max_n))
    start = draw(st.one_of(*[st.integers(-120, 120)] * 5, st.sampled_from([1200001, 2000003, -1200003]))) * 0.25      # local or projected coordinates
    uni = draw(st.booleans()) if uniform is None else uniform
    if uni:
        d = draw(st.integers(1, 20)) * 0.25
        gaps = [d] * (n - 1)
    else:
        gaps = [g * 0.25 for g in draw(st.lists(st.integers(1, 20), min_size=n - 1, max_size=n - 1))]
    return [float(v) for v in start + np.concatenate(([0.0], np.cumsum(gaps)))]


@st.composite
def st_source_x(draw, xs, outside=True):
    off = draw(st.integers(1, 80)) * 0.25
    side = draw(st.sampled_from(["near", "far"]))
    if outside:
        return xs[0] - off if side == "near" else xs[-1] + off
    return xs[0] + draw(st.floats(0.01, 0.99)) * (xs[-1] - xs[0])


@st.composite
def st_array(draw, min_ch=2, max_ch=8, min_n=8, max_n=48, dts=EXACT_DTS, max_pre=0, uniform=None, ys=False, outside=True, big=False):
    xs = draw(st_xs(min_ch, max_ch, uniform, (24, 48, 96, 130) if big else ()))
    n = sized(draw, min_n, max_n, (500, 1024, 3001)) if big else draw(st.integers(min_n, max_n))
    c = {"xs": xs, "n": n, "dt": draw(st.sampled_from(list(dts))), "seed": draw(seeds),
         "src": draw(st_source_x(xs, outside)), "nstacks": draw(st.integers(1, 5)),
         "pre": draw(st.integers(0, max_pre)) if max_pre else 0,
         "order": shuffled(draw, len(xs)),
         "scale": draw(st.sampled_from([1.0, 1.0, 1e6, 1e-9]))}      # counts, volts or metres per second
    if ys:
        c["ys"] = draw(st.lists(st.integers(-40, 40).map(lambda k: k * 0.25), min_size=len(xs), max_size=len(xs)))
        c["sy"] = draw(st.integers(-40, 40)) * 0.25
    return c


def array_amps(c):
    """Amplitudes in increasing-position order."""
    if "amps" in c:
        return np.array(c["amps"], dtype=float)
    return np.array([noise(c["n"], c["seed"] * 64 + k, c.get("scale", 1.0)) for k in range(len(c["xs"]))])


def make_array(c, amps=None, order=None, xs=None, src=None):
    amps = array_amps(c) if amps is None else amps
    xs = c["xs"] if xs is None else xs
    ys = c.get("ys", [0.0] * len(xs))
    order = c["order"] if order is None else order
    delay = -c.get("pre", 0) * c["dt"]
    sensors = [Sensor1C(amps[i], c["dt"], x=xs[i], y=ys[i], z=0, nstacks=c.get("nstacks", 1), delay=delay) for i in order]
    return Array1D(sensors, Source(x=c["src"] if src is None else src, y=c.get("sy", 0.0), z=0))


# ---------------------------------------------------------------- comparisons
def close(a, b, rtol=1e-9, atol=0.0, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    m = ~np.isnan(a)
    if not m.any():
        return True
    a, b = a[m], b[m]
    inf = np.isinf(a) | np.isinf(b)
    if not np.array_equal(a[inf], b[inf]):
        return False
    a, b = a[~inf], b[~inf]
    if a.size == 0:
        return True
    s = max(np.max(np.abs(a)), np.max(np.abs(b))) if scale is None else scale
    return bool(np.max(np.abs(a - b)) <= rtol * s + atol)


def ensure_close(a, b, msg, rtol=1e-9, atol=0.0, scale=None):
    if not close(a, b, rtol, atol, scale):
        a, b = np.asarray(a), np.asarray(b)
        raise Violation(f"{msg}: shapes {a.shape} {b.shape}\n got  {a}\n want {b}")


@contextmanager
def must_raise(*types, msg=""):
    """The block must raise one of `types`."""
    try:
        yield
    except types:
        return
    raise Violation(f"expected {'/'.join(t.__name__ for t in types)}: {msg}")


def settings_dict(**kw):
    return Masw.create_settings_dict(**kw)


def state_of(s):
    """Observable state of a time series or sensor."""
    out = {"dt": s.dt, "nstacks": s.nstacks, "delay": s.delay, "nsamples": s.nsamples, "multiple": s.multiple,
           "df": s.df, "amp": np.array(s.amplitude), "time": np.array(s.time)}
    for k in ("x", "y", "z"):
        if hasattr(s, k):
            out[k] = getattr(s, k)
    return out


def same_state(a, b, rtol=0.0):
    for k in a:
        if k in ("amp", "time"):
            if not close(a[k], b[k], rtol=rtol):
                return False
        elif a[k] != b[k]:
            return False
    return set(a) == set(b)


def ensure_state(a, b, msg, rtol=0.0):
    ensure(same_state(a, b, rtol), msg, before=a, after=b)


# ---------------------------------------------------------------- scripted user
@contextmanager
def scripted_user(clicks=(), presses=None, on_click=None):
    """Answer every request for mouse clicks / key presses on any figure from a script.

    `clicks`: list of answers, each the list of points one request returns.  `presses`: a callable (timeout) -> bool answering
    each wait for a key.  Yields a log {"clicks": used so far, "presses": waits so far}."""
    import matplotlib.figure as mf
    queue = list(clicks)
    log = {"clicks": 0, "presses": 0, "timeouts": []}

    def ginput(self, n=1, timeout=30, show_clicks=True, **kw):
        if not queue:
            raise Violation("the user was asked for more clicks than the task needs")
        log["clicks"] += 1
        ans = queue.pop(0)
        return on_click(self, n, ans) if on_click else [tuple(p) for p in ans]

    def wait(self, timeout=-1):
        log["presses"] += 1
        log["timeouts"].append(timeout)
        return presses(timeout) if presses else (True if timeout is None or timeout < 0 else None)

    with mock.patch.object(mf.Figure, "ginput", ginput), mock.patch.object(mf.Figure, "waitforbuttonpress", wait):
        yield log
