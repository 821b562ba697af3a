from lib import *
from props.c16_json import EXTRA, st_peaks, arrays, build, check_against

P = Property("C17", rule="Histories of 1-8 rejections (limits two-sided, one-sided, absent, reversed-in-order corners, on values of the data itself; boxes in any pair of "
             "domains or further quantities, zero and negative limits included) on one set or on a suite of 1-4 sets; non-trivial = at least two requests reject something.",
             assumptions=["limits on derived quantities (wavelength, slowness, wavenumber) do not coincide with a point to rounding"])

ATTRS = ["frequency", "velocity", "wavelength", "slowness", "wavenumber"]
DERIVED = ("wavelength", "slowness", "wavenumber")
NUMBERS = [0, 0.0, -1.0, 1, 5, 10.0, -20, 100.0, 0.5, float("inf"), float("-inf")]


@st.composite
def st_set(draw, i):
    c = draw(st_peaks(st.just(f"set{i}"), min_col=1))
    grid = st.one_of(st.integers(1, 40).map(float), st.integers(1, 400).map(lambda k: k * 0.25))
    n = len(c["f"])
    c["f"] = draw(st.lists(grid, min_size=n, max_size=n))
    c["v"] = draw(st.lists(st.integers(1, 60).map(lambda k: k * 10.0), min_size=n, max_size=n))
    fu, vu = draw(st.sampled_from([(1, 1)] * 6 + [(2.0 ** -10, 1), (2.0 ** -12, 16), (1024, 1), (1, 2.0 ** -10)]))      # microtremor to ultrasound, whatever the units
    c["f"], c["v"] = [q * fu for q in c["f"]], [q * vu for q in c["v"]]
    return c


@st.composite
def st_limit(draw):
    """A limit, later resolved against the data: one of its values, or between values, or absent."""
    return draw(st.one_of(st.none(), st_number()))


def st_number():
    return st.one_of(st.tuples(st.sampled_from(["value", "shift"]), st.floats(0, 1)), st.tuples(st.just("shift"), st.floats(0, 1)),
                     st.tuples(st.just("number"), st.sampled_from(NUMBERS)))


@st.composite
def case_hist(draw):
    k = draw(st.integers(1, 4))
    sets = [draw(st_set(i)) for i in range(k)]
    extra = draw(st.lists(st.sampled_from(EXTRA), unique=True, max_size=4))      # the same further quantities in every set of a collection
    for q in sets:
        m = len(q["f"])
        q["extra"] = {a: draw(st.lists(st.one_of(st.integers(-8, 8).map(lambda k: k * 5.0), st.floats(-50, 50), st.none()), min_size=m, max_size=m)) for a in extra}
    ANY = st.sampled_from(ATTRS + extra * 2)
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.booleans()):
            ops.append({"op": "limits", "attr": draw(ANY), "lo": draw(st_limit()), "hi": draw(st_limit())})
        else:
            ops.append({"op": "box", "x": draw(ANY), "y": draw(ANY),
                        "q": draw(st.lists(st_number(), min_size=4, max_size=4))})
    return {"sets": sets, "ops": ops, "suite": draw(st.booleans())}


def domain(fv, attr):
    f, v, ex = fv
    if attr in ex:
        return ex[attr]
    with np.errstate(all="ignore"):
        return {"frequency": f, "velocity": v, "wavelength": v / f, "slowness": 1 / v, "wavenumber": 2 * np.pi * f / v}[attr]


def resolve(q, data, attr):
    """A number for a drawn limit; `value` picks one of the (stored, not derived) data exactly, `shift` lies strictly between two of them."""
    if q is None:
        return None
    u = np.unique(data[np.isfinite(data)])
    if len(u) == 0:
        return 1.0
    kind, t = q
    if kind == "number":
        return t
    if attr in DERIVED:     # derived: equal up to rounding only
        kind, u = "shift", u[np.concatenate(([True], np.diff(u) > 1e-9 * np.abs(u[1:])))]
    i = min(int(t * len(u)), len(u) - 1)
    if kind == "value":
        return float(u[i])
    grid = np.concatenate(([u[0] - abs(u[0]) / 2], (u[1:] + u[:-1]) / 2, [u[-1] + abs(u[-1]) / 2]))
    return float(grid[min(int(t * len(grid)), len(grid) - 1)])


@P.check(case_hist, 900)
def history(c, r):
    """Exactly the points outside the limits, or strictly inside the box, are dropped; nothing comes back and nothing else changes."""
    ps = [build(q) for q in c["sets"]]
    target = PeaksSuite.from_peaks(ps) if c["suite"] or len(ps) > 1 else ps[0]
    fv = [arrays(q) for q in c["sets"]]
    ok = [~np.isnan(q[1]) for q in fv]
    hits = 0
    for op in c["ops"]:
        r.label(op["op"])
        before = [m.copy() for m in ok]
        if op["op"] == "limits":
            vals = [domain(q, op["attr"]) for q in fv]
            allv = np.concatenate([w.ravel() for w in vals])
            lo, hi = resolve(op["lo"], allv, op["attr"]), resolve(op["hi"], allv, op["attr"])
            target.reject_limits_outside(op["attr"], (lo, hi))
            with np.errstate(invalid="ignore"):
                for m, w in zip(ok, vals):
                    if lo is not None:
                        m &= ~(w < lo)
                    if hi is not None:
                        m &= ~(w > hi)
            r.label("both" if None not in (lo, hi) else "open" if lo is None and hi is None else "one-sided")
        else:
            xs, ys = [domain(q, op["x"]) for q in fv], [domain(q, op["y"]) for q in fv]
            ax, ay = np.concatenate([w.ravel() for w in xs]), np.concatenate([w.ravel() for w in ys])
            x1, x2, y1, y2 = (resolve(q, w, k) for q, w, k in zip(op["q"], (ax, ax, ay, ay), (op["x"], op["x"], op["y"], op["y"])))
            target.reject_box_inside(op["x"], (x1, x2), op["y"], (y1, y2))
            with np.errstate(invalid="ignore"):
                for m, wx, wy in zip(ok, xs, ys):
                    m &= ~((wx > min(x1, x2)) & (wx < max(x1, x2)) & (wy > min(y1, y2)) & (wy < max(y1, y2)))
        hits += any(not np.array_equal(a, b) for a, b in zip(before, ok))
        for p, q, m in zip(ps, c["sets"], ok):
            check_against(p, q, m, f"after {op}")
    r.nt(hits > 1)
    r.label(f"{min(hits, 4)} effective requests")


@P.check(case_hist, 300)
def order_does_not_matter(c, r):
    """The same requests (fixed numbers) in reverse order leave the same points."""
    fv = [arrays(q) for q in c["sets"]]
    every = [np.concatenate([w[i].ravel() for w in fv]) for i in (0, 1)]
    every.append({k: np.concatenate([w[2][k].ravel() for w in fv]) for k in fv[0][2]})
    a, b = (PeaksSuite.from_peaks([build(q) for q in c["sets"]]) for _ in range(2))

    def apply(t, op):
        if op["op"] == "limits":
            d = domain(every, op["attr"])
            t.reject_limits_outside(op["attr"], (resolve(op["lo"], d, op["attr"]), resolve(op["hi"], d, op["attr"])))
        else:
            dx, dy = domain(every, op["x"]), domain(every, op["y"])
            q = op["q"]
            t.reject_box_inside(op["x"], (resolve(q[0], dx, op["x"]), resolve(q[1], dx, op["x"])), op["y"], (resolve(q[2], dy, op["y"]), resolve(q[3], dy, op["y"])))
    for op in c["ops"]:
        apply(a, op)
    for op in c["ops"][::-1]:
        apply(b, op)
    r.nt(len(c["ops"]) > 1)
    for p, q in zip(a, b):
        ensure(np.array_equal(p.frequency, q.frequency) and np.array_equal(p.velocity, q.velocity), "order of rejections matters")
    for op in c["ops"]:
        apply(b, op)
    for p, q in zip(a, b):
        ensure(np.array_equal(p.frequency, q.frequency) and np.array_equal(p.velocity, q.velocity), "repeating rejections changes the outcome")
    with must_raise(AttributeError, msg="unknown domain accepted"):
        a.reject_limits_outside("colour", (1, 2))
