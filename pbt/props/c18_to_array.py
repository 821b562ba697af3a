from lib import *

P = Property("C18", rule="Suites of 1-5 sets, 1-D or several peaks per frequency with or without power, some points missing or rejected or of unknown power, discretised at values inside, at "
             "and outside the data; non-trivial = some set has a frequency with several candidate peaks, or values outside the data.",
             assumptions=["kept points of one set have distinct abscissae", "powers within one frequency are distinct"])


@st.composite
def st_set(draw, i):
    kind = draw(st.sampled_from(["1d", "power", "power", "nopower"]))
    if draw(st.integers(0, 24)) == 24:                       # as many frequencies and peaks as in practice
        ncol, nrow, seed = draw(st.sampled_from([40, 120])), 1 if kind == "1d" else draw(st.sampled_from([1, 5, 20])), draw(seeds)
        size = nrow * ncol
        order = np.argsort(noise(ncol, seed + 1)) if draw(st.booleans()) else range(ncol)
        return {"id": f"s{i}", "kind": kind, "ncol": ncol, "nrow": nrow, "f": [2 + int(q) for q in order], "v": [7.0 * int(10 + 80 * abs(q)) for q in noise(size, seed + 2)],
                "miss": flags(size, seed + 3, 0.25), "pw": [int(q) for q in np.argsort(noise(size, seed + 4))], "neg": draw(st.booleans()), "seed": seed, "unit": 1.0, "nopw": []}
    ncol = draw(st.integers(0, 7))
    nrow = 1 if kind == "1d" else draw(st.integers(1, 4))
    f = draw(st.lists(st.integers(2, 80), min_size=ncol, max_size=ncol, unique=True))
    if draw(st.booleans()):
        f = sorted(f)
    size = nrow * ncol
    return {"id": f"s{i}", "kind": kind, "ncol": ncol, "nrow": nrow, "f": f, "v": draw(st.lists(st.integers(10, 90).map(lambda k: 7.0 * k), min_size=size, max_size=size)),
            "miss": draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=size, max_size=size)),
            "pw": list(draw(st.permutations(range(size)))), "neg": draw(st.booleans()), "seed": draw(seeds),
            "unit": draw(st.sampled_from([1.0, 1.0, 1e-14, 1e9])), "nopw": draw(st.lists(st.sampled_from([0, 0, 0, 0, 1]), min_size=size, max_size=size)) if draw(st.integers(0, 2)) == 0 else []}


def arrays(c):
    f = np.array(c["f"], float)
    v = np.where(np.array(c["miss"], bool), np.nan, np.array(c["v"], float) * c.get("vu", 1))
    if c["kind"] == "1d":
        return f, v, None
    v = v.reshape(c["nrow"], c["ncol"])
    p = (np.array(c["pw"], float).reshape(c["nrow"], c["ncol"]) * 0.5 - (500 if c["neg"] else 0)) * c.get("unit", 1.0)
    if c.get("nopw"):                                        # the power of some peaks is missing
        p[np.array(c["nopw"], bool).reshape(p.shape)] = np.nan
    f = np.tile(f, (c["nrow"], 1))
    return f, v, (p if c["kind"] == "power" else None)


@st.composite
def case_array(draw):
    k = draw(st.integers(1, 5))
    c = {"sets": [draw(st_set(i)) for i in range(k)], "x": draw(st.sampled_from(["frequency", "frequency", "wavelength"])), "y": draw(st.sampled_from(["velocity", "velocity", "slowness", "azimuth", "quality"])),
         "lims": draw(st.sampled_from([[None, None], [150.0, None], [100.0, 500.0], [None, 300.0]])), "xx": draw(st.lists(st.floats(0, 1), min_size=1, max_size=7)),
         "exact": draw(st.integers(0, 3)), "beyond": draw(st.booleans())}
    vu = draw(st.sampled_from([1, 1, 1, 16, 2.0 ** -10]))                 # stiff ground, or kilometres
    c["lims"] = [q and q * vu for q in c["lims"]]
    for q in c["sets"]:
        q["vu"] = vu
    if draw(st.integers(0, 19)) == 19:                       # as many values as in practice
        c["xx"] = [float(q) for q in np.linspace(0.003, 0.997, draw(st.sampled_from([60, 101, 150, 300])))]
    return c


def make(c):
    f, v, p = arrays(c)
    return Peaks(f, v, identifier=c["id"], **({} if p is None else {"power": p}), **extras(c))


def extras(c):
    """Two more attributes, one of them of the user's own."""
    f = arrays(c)[0]
    return {"azimuth": 180 + 90 * noise(f.size, c["seed"]).reshape(f.shape), "quality": noise(f.size, c["seed"] + 1).reshape(f.shape)}


def kept(c, lims):
    _, v, _ = arrays(c)
    ok = ~np.isnan(v)
    with np.errstate(invalid="ignore"):
        if lims[0] is not None:
            ok &= ~(v < lims[0])
        if lims[1] is not None:
            ok &= ~(v > lims[1])
    return ok


def simplified(c, lims):
    """The points (frequency, velocity, azimuth, quality) that represent the set: per frequency the accepted peak with the largest known power (or the first accepted one)."""
    f, v, p = arrays(c)
    e = extras(c)
    ok = kept(c, lims)
    if c["kind"] == "1d":
        return [q[:-1] for q in zip(f, v, e["azimuth"], e["quality"], ok) if q[-1]]
    out = []
    for col in range(c["ncol"]):
        rows = [r for r in range(c["nrow"]) if ok[r, col]]
        if not rows:
            continue
        known = [] if p is None else [q for q in rows if not np.isnan(p[q, col])]
        row = max(known, key=lambda q: p[q, col]) if known else rows[0]
        out.append((f[row, col], v[row, col], e["azimuth"][row, col], e["quality"][row, col]))
    return out


def dom(pairs, attr):
    return np.array([{"frequency": f, "velocity": v, "wavelength": v / f, "slowness": 1 / v, "wavenumber": 2 * np.pi * f / v, "azimuth": a, "quality": q}[attr] for f, v, a, q in pairs])


def interp(x, y, xx):
    out = np.full(len(xx), np.nan)
    o = np.argsort(x)
    x, y = x[o], y[o]
    for i, q in enumerate(xx):
        if len(x) and x[0] <= q <= x[-1]:
            j = min(max(int(np.searchsorted(x, q, side="right")) - 1, 0), len(x) - 2) if len(x) > 1 else 0
            out[i] = y[0] if len(x) == 1 else y[j] + (y[j + 1] - y[j]) * (q - x[j]) / (x[j + 1] - x[j])
    return out


@P.check(case_array, 1200)
def discretise(c, r):
    """One row per set: the representative curve, interpolated linearly inside its data and missing outside."""
    ps = [make(q) for q in c["sets"]]
    suite = PeaksSuite.from_peaks(ps)
    suite.reject_limits_outside("velocity", c["lims"])
    curves = [simplified(q, c["lims"]) for q in c["sets"]]
    for p, q, cur in zip(ps, c["sets"], curves):
        ok = kept(q, c["lims"])
        ensure(np.array_equal(p.velocity, arrays(q)[1][ok]), "accepted points")
        for attr in ("frequency", "velocity", "wavelength", "slowness", "wavenumber", "azimuth", "quality"):
            got = np.asarray(p.simplify_mpeaks(attr), float)
            ensure_close(got, dom(cur, attr), f"representative {attr}", rtol=1e-12)
    xs = [dom(q, c["x"]) for q in curves]
    if any(len(set(np.round(x, 9))) < len(x) for x in xs):
        return
    pool = np.concatenate([x for x in xs] + [np.array([5.0])])
    lo, hi = pool.min(), pool.max()
    span = (hi - lo) or 1.0
    a, b = (lo - 0.3 * span, hi + 0.3 * span) if c["beyond"] else (lo, hi)
    xx = [a + t * (b - a) for t in c["xx"]] + [float(q) for q in np.unique(pool)[:c["exact"]]]
    # stay clear of rounding at the very ends of a curve
    xx = [q for q in xx if all(len(x) == 0 or min(abs(q - x.min()), abs(q - x.max())) > 1e-9 * span or q in (x.min(), x.max()) for x in xs)]
    if c["x"] == "wavelength":
        xx = [q for q in xx if all(len(x) == 0 or min(abs(q - x.min()), abs(q - x.max())) > 1e-9 * span for x in xs)]
    if c["exact"] and c["x"] == "frequency":                 # whole numbers given as such
        xx = [int(q) if q == int(q) else q for q in xx[::-1]]
    if not xx:
        return
    given = list(xx)
    gx, arr = suite.to_array(c["x"], c["y"], given)
    ensure(given == xx, "the requested values were modified")
    ensure_close(gx, xx, "returned values", rtol=0)
    ensure(np.shape(arr) == (len(ps), len(xx)), "array shape", got=np.shape(arr))
    for i, cur in enumerate(curves):
        x, y = dom(cur, c["x"]), dom(cur, c["y"])
        if len(x) == 1:      # a single point: either nothing or only at the point itself
            m = [q != x[0] for q in xx]
            ensure(np.all(np.isnan(np.asarray(arr[i])[m])), "a single point was extrapolated")
            continue
        ensure_close(arr[i], interp(x, y, xx), f"row {i}", rtol=1e-9)
    multi = any(q["kind"] != "1d" and q["nrow"] > 1 and np.any(kept(q, c["lims"]).sum(axis=0) > 1) for q in c["sets"])
    outside = bool(np.any(np.isnan(arr)))
    r.nt(multi or outside)
    r.label(c["x"], c["y"], "several peaks" if multi else "single peaks", "outside" if outside else "inside")
    for p, q in zip(ps, c["sets"]):
        ensure(np.array_equal(p.velocity, arrays(q)[1][kept(q, c["lims"])]), "discretising changed the set")
