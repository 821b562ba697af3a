from lib import *
import props.c18_to_array as c18

P = Property("C19", rule="Suites of 1-9 sets covering different parts of a common axis (points missing and rejected), statistics at 1-7 values under every option; "
             "non-trivial = at least three sets, some values are dropped for lack of data and some are kept.",
             assumptions=["kept points of one set have distinct abscissae", "correlations are compared where every entry is present or mean substitution is on"])


@st.composite
def case_stats(draw):
    k = draw(st.sampled_from([5, 6, 4, 7, 3, 8, 9, 2, 1]))
    nx = draw(st.integers(3, 8))
    bulk = draw(st.integers(0, 29)) == 29                    # as many sets and frequencies as in practice
    if bulk:
        k, nx = draw(st.sampled_from([20, 60])), draw(st.sampled_from([15, 50]))
    sets = []
    for i in range(k):
        lo = draw(st.integers(0, nx - 2)) if draw(st.booleans()) else 0
        hi = draw(st.integers(lo + 1, nx - 1)) if draw(st.booleans()) else nx - 1
        m = hi - lo + 1
        miss = flags(m, draw(seeds), 0.1) if bulk else draw(st.lists(st.sampled_from([0, 0, 0, 0, 1]), min_size=m, max_size=m)) if draw(st.integers(0, 4)) == 0 else [0] * m
        if sum(miss) == m - 1:
            miss = [1] * m
        sets.append({"id": f"s{i}", "kind": "1d", "ncol": m, "nrow": 1, "f": [5 + 3 * j for j in range(lo, hi + 1)], "seed": draw(seeds), "miss": miss, "pw": list(range(m)), "neg": False})
        sets[-1]["v"] = [float(q) for q in np.round(300 + 150 * noise(m, sets[-1]["seed"]), 3)]
    c = {"sets": sets, "x": draw(st.sampled_from(["frequency", "frequency", "frequency", "wavelength"])), "y": draw(st.sampled_from(["velocity", "slowness"])),
         "xx": [5 + 3 * j + draw(st.sampled_from([0.0, 0.5, 1.25])) for j in draw(st.lists(st.integers(-1, nx), min_size=2, max_size=nx + 2, unique=True))],
         "count": draw(st.sampled_from(["default", 0, 1, 2, 3, 4, 5])), "corr": draw(st.booleans()), "sub": draw(st.booleans()),
         "lims": draw(st.sampled_from([[None, None], [None, None], [200.0, 430.0]])), "perm": shuffled(draw, k)}
    if c["x"] == "wavelength":
        c["xx"] = [20.0 + 6.0 * q for q in range(len(c["xx"]))]
    return c


def reference(c, curves):
    rows = []
    for q in curves:
        x, y = c18.dom(q, c["x"]), c18.dom(q, c["y"])
        rows.append(np.full(len(c["xx"]), np.nan) if len(x) < 2 else c18.interp(x, y, c["xx"]))
    return np.array(rows)


@P.check(case_stats, 1200)
def statistics(c, r):
    """Mean and sample standard deviation over the sets which have a value there; sparse values are dropped, not invented."""
    suite = PeaksSuite.from_peaks([c18.make(q) for q in c["sets"]])
    suite.reject_limits_outside("velocity", c["lims"])
    curves = [c18.simplified(q, c["lims"]) for q in c["sets"]]
    kw = {} if c["count"] == "default" else {"drop_sample_if_fewer_count": c["count"]}
    if c["corr"]:
        kw["ignore_corr"] = False
    if c["sub"]:
        kw["mean_substitution"] = True
    if len(c["sets"]) < 3:
        r.label("too few sets")
        with must_raise(ValueError, msg="statistics of fewer than three sets"):
            suite.statistics(c["x"], c["y"], c["xx"], **kw)
        return
    if any(len(q) == 1 for q in curves):
        return
    for q in curves:
        x = c18.dom(q, c["x"])
        if len(x) and (len(set(np.round(x, 9))) < len(x) or np.min(np.abs(np.subtract.outer(x, c["xx"]))[[np.argmin(x), np.argmax(x)]]) < 1e-9 and c["x"] == "wavelength"):
            return
    m = reference(c, curves)
    count = np.sum(~np.isnan(m), axis=0)
    need = 3 if c["count"] == "default" else c["count"]
    keep = np.flatnonzero(count >= max(need, 1))
    given = list(c["xx"])
    xx, mean, std, corr = suite.statistics(c["x"], c["y"], given, **kw)
    ensure(given == c["xx"], "the requested values were modified")
    r.nt(0 < len(keep) < len(c["xx"]))
    r.label("nothing kept" if not len(keep) else "all kept" if len(keep) == len(c["xx"]) else "some kept", f"substitution={c['sub']}")
    ensure_close(xx, np.array(c["xx"])[keep], "values at which statistics are given")
    sub = m[:, keep]
    mu = np.array([np.mean(w[~np.isnan(w)]) for w in sub.T])
    sd = np.array([np.sqrt(np.sum((w[~np.isnan(w)] - a) ** 2) / (np.sum(~np.isnan(w)) - 1)) if np.sum(~np.isnan(w)) > 1 else np.nan for w, a in zip(sub.T, mu)])
    ensure_close(mean, mu, "mean", rtol=1e-9)
    ensure_close(std, sd, "standard deviation", rtol=1e-7)
    if not c["corr"]:
        ensure(corr is None, "correlation was not requested")
    elif len(keep) > 1 and (c["sub"] or not np.any(np.isnan(sub))):
        full = np.where(np.isnan(sub), mu, sub) - mu
        with np.errstate(all="ignore"):
            norm = np.sqrt(np.sum(full ** 2, axis=0))
            want = full.T @ full / np.outer(norm, norm)
        if np.all(norm > 1e-6 * np.abs(mu)):
            r.label("correlation")
            ensure_close(corr, want, "correlation coefficients", atol=1e-7)
    other = PeaksSuite.from_peaks([suite[i] for i in c["perm"]]).statistics(c["x"], c["y"], c["xx"], **kw)
    ensure_close(other[1], mean, "order of the sets matters", rtol=1e-9)
    ensure_close(other[2], std, "order of the sets matters", rtol=1e-7)
    for p, q in zip(suite, c["sets"]):
        ensure(np.array_equal(p.velocity, c18.arrays(q)[1][c18.kept(q, c["lims"])]), "statistics changed a set")


@st.composite
def case_large(draw):
    """Many sets or a dense axis, where a few values are a small part of the whole."""
    many = draw(st.booleans())
    return {"k": draw(st.integers(150, 420)) if many else draw(st.integers(3, 8)), "nx": draw(st.integers(4, 9)) if many else draw(st.integers(90, 420)), "few": draw(st.integers(1, 4)),
            "width": draw(st.sampled_from([1, 1, 2, 3])), "at": draw(st.floats(0, 1)), "seed": draw(seeds), "count": draw(st.sampled_from(["default", 1, 2, 3])), "shuffle": draw(seeds), "many": many}


@P.check(case_large, 40)
def large(c, r):
    """However many sets and abscissae there are, every value counts."""
    nx, k = c["nx"], c["k"]
    full = 10.0 + np.arange(nx)
    a = int(c["at"] * (nx - c["width"]))
    small = np.array([full[a] - 0.4, full[a + c["width"] - 1] + 0.4])      # covers `width` abscissae only
    ps, rows = [], []
    for i in range(k):
        few = i < c["few"]
        if c["many"]:                                                         # few sets cover all, the others only the start
            f = np.append(full, full[-1] + 1) if few else np.array([9.0, 10.0 + nx // 2])
        else:
            f = small if few else np.append(full, full[-1] + 1)
        v = 300 + 100 * noise(len(f), c["seed"] + 3 * i)
        ps.append(Peaks(f, v, identifier=f"s{i}"))
        rows.append(interp_rows(f, v, full))
    m = np.array(rows)
    order = np.argsort(noise(k, c["shuffle"]))
    count = np.sum(~np.isnan(m), axis=0)
    keep = np.flatnonzero(count >= (3 if c["count"] == "default" else c["count"]))
    kw = {} if c["count"] == "default" else {"drop_sample_if_fewer_count": c["count"]}
    r.nt(0 < np.min(count[keep], initial=k) < 0.01 * k or (not c["many"] and c["width"] < 0.01 * nx))
    r.label("many sets" if c["many"] else "many abscissae")
    xx, mean, std, _ = PeaksSuite.from_peaks([ps[i] for i in order]).statistics("frequency", "velocity", full, **kw)
    ensure_close(xx, full[keep], "values at which statistics are given")
    ensure_close(mean, np.nanmean(m[:, keep], axis=0), "mean", rtol=1e-9)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ensure_close(std, np.nanstd(m[:, keep], axis=0, ddof=1), "standard deviation", rtol=1e-7)


def interp_rows(f, v, xx):
    return np.interp(xx, f, v, left=np.nan, right=np.nan)
