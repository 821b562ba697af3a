import matplotlib.pyplot as plt

from lib import *

P = Property("C25", rule="Every pair of plotted quantities x the quantity of the limits (supported or not) x drawn limits and axis ranges (linear and logarithmic), computed and drawn; "
             "non-trivial = a supported combination with two different limits.",
             assumptions=["frequencies, velocities and limits are positive"])
NAMES = ["frequency", "wavelength", "velocity", "slowness", "wavenumber", "azimuth"]
OK = {(x, a, y) for a in ("wavelength", "wavenumber") for x, y in [("frequency", "velocity"), ("frequency", "wavenumber"), ("frequency", "slowness"), ("wavelength", "velocity"), ("wavelength", "slowness")]}
RANGE = {"frequency": (0.5, 100.0), "wavelength": (0.02, 500.0), "velocity": (50.0, 3000.0), "slowness": (1e-4, 2e-2), "wavenumber": (1e-3, 300.0), "azimuth": (1.0, 360.0)}


@st.composite
def case_limits(draw):
    x, a, y = draw(st.sampled_from(sorted(OK))) if draw(st.integers(0, 4)) else (draw(st.sampled_from(NAMES[:3])), draw(st.sampled_from(NAMES)), draw(st.sampled_from(NAMES)))

    def interval(name):
        lo, hi = RANGE[name]
        u = sorted(draw(st.lists(st.integers(0, 100), min_size=2, max_size=2, unique=True)))
        return [lo * (hi / lo) ** (q / 100) for q in u]
    c = {"x": x, "a": a, "y": y, "xr": interval(x), "yr": interval(y), "lims": interval(a), "n": draw(st.integers(2, 40)), "scale": draw(st.sampled_from([["log", "linear"], ["log", "log"], ["linear", "linear"], ["linear", "log"]])), "floor": draw(st.sampled_from([None, 0.0, -25.0])),
         "kw": draw(st.sampled_from([None, {"color": "#ff0000"}, {"label": "array", "linewidth": 2.0}])), "old": draw(st.integers(0, 2))}
    if draw(st.booleans()):
        c["lims"] = c["lims"][::-1]
    return c


def wavelength_of(x, y, xs, ys):
    """Wavelength at every point (xs, ys) of a plot of y against x."""
    if x == "wavelength":
        return np.asarray(xs, float)
    if y == "wavenumber":
        return 2 * np.pi / np.asarray(ys, float)
    v = np.asarray(ys, float) if y == "velocity" else 1 / np.asarray(ys, float)
    return v / np.asarray(xs, float)


@P.check(case_limits, 700)
def computed(c, r):
    """Every point of each curve has the wavelength of its limit, and the curve covers the range asked for."""
    xs, ys = np.linspace(*c["xr"], c["n"]), np.linspace(*c["yr"], c["n"])
    x0, y0 = xs.copy(), ys.copy()
    key = (c["x"], c["a"], c["y"])
    r.label("supported" if key in OK else "unsupported")
    if key not in OK:
        with must_raise(NotImplementedError, msg=f"limits for {key}"):
            PeaksSuite.calc_resolution_limits(c["x"], c["a"], c["y"], tuple(c["lims"]), xs, ys)
        return
    r.nt()
    r.label("/".join(key))
    out = PeaksSuite.calc_resolution_limits(c["x"], c["a"], c["y"], tuple(c["lims"]), xs, ys)
    ensure(np.array_equal(xs, x0) and np.array_equal(ys, y0), "the ranges given were changed")
    ensure(len(out) == 2, "two curves")
    for limit, (cx, cy) in zip(c["lims"], out):
        want = limit if c["a"] == "wavelength" else 2 * np.pi / limit
        ensure(len(cx) == len(cy) == c["n"], "points of a curve")
        ensure_close(wavelength_of(c["x"], c["y"], cx, cy), np.full(c["n"], want), "wavelength along the curve", rtol=1e-10)
        ensure_close(cx, x0, "abscissae", rtol=1e-12) if c["x"] == "frequency" else ensure_close(cy, y0, "ordinates", rtol=1e-12)


@P.check(case_limits, 150)
def whole_numbers(c, r):
    """The same where the range is given in whole numbers."""
    key = (c["x"], c["a"], c["y"])
    if key not in OK:
        return
    r.nt()
    xs, ys = [np.ceil(np.linspace(*c[q], c["n"])).astype(int) for q in ("xr", "yr")]
    for limit, (cx, cy) in zip(c["lims"], PeaksSuite.calc_resolution_limits(c["x"], c["a"], c["y"], tuple(c["lims"]), xs, ys)):
        want = limit if c["a"] == "wavelength" else 2 * np.pi / limit
        ensure_close(wavelength_of(c["x"], c["y"], cx, cy), np.full(c["n"], want), "wavelength along the curve", rtol=1e-10)
        ensure_close(*((cx, xs) if c["x"] == "frequency" else (cy, ys)), "range of the curve", rtol=1e-12)


@P.check(case_limits, 120)
def drawn(c, r):
    """Two curves are added over the visible range with one legend entry; unsupported quantities add nothing."""
    fig, ax = plt.subplots()
    for k in range(c["old"]):
        ax.plot([1, 2], [3, 4 + k], label=f"old{k}")
    ax.set_xscale(c["scale"][0])
    ax.set_yscale(c["scale"][1])
    ax.set_xlim(*c["xr"])
    yr = c["yr"] if c["floor"] is None or c["scale"][1] == "log" else [c["floor"], c["yr"][1]]      # the ordinate may begin at or below zero
    ax.set_ylim(*yr)
    kw = None if c["kw"] is None else dict(c["kw"])
    PeaksSuite.plot_resolution_limits(ax, c["x"], c["y"], c["a"], tuple(c["lims"]), plot_kwargs=kw)
    ensure(kw == c["kw"], "the caller's formatting was changed", got=kw)
    new = ax.get_lines()[c["old"]:]
    if (c["x"], c["a"], c["y"]) not in OK:
        ensure(not new, "drew limits it cannot compute")
        return
    r.nt()
    ensure(len(new) == 2, "two curves", got=len(new))
    for limit, line in zip(c["lims"], new):
        cx, cy = line.get_xdata(), line.get_ydata()
        want = limit if c["a"] == "wavelength" else 2 * np.pi / limit
        ensure(len(cx) >= 2, "a curve")
        ensure_close(wavelength_of(c["x"], c["y"], cx, cy), np.full(len(cx), want), "wavelength along the drawn curve", rtol=1e-9)
        span, rng = (cx, c["xr"]) if c["x"] == "frequency" else (cy, yr)
        ensure_close([min(span), max(span)], rng, "visible range covered", rtol=1e-9)
    label = (c["kw"] or {}).get("label", "limit")
    ensure(ax.get_legend_handles_labels()[1] == [f"old{k}" for k in range(c["old"])] + [label], "legend entries", got=ax.get_legend_handles_labels()[1])
    if c["kw"] and "color" in c["kw"]:
        ensure(all(l.get_color() == "#ff0000" for l in new), "requested formatting")
