import json
from lib import *

P = Property("C16", rule="Peak sets (1-D or several peaks per frequency, 0-5 extra attributes, missing values, rejected points, any identifier text) written, appended, "
             "read, combined and written again; non-trivial = some peaks are rejected or missing and there is at least one extra attribute.")

EXTRA = ["azimuth", "ellipticity", "noise", "power", "quality"]
# identifiers which are easily taken for one another: by case, words, prefixes, padding or numeric value
RELATED = ["a", "A", "1", "01", "1.0", "10", " 1", "1 ", "line", "line 7", "7", "7 line", "Line 7", "line  7", "ab", "a.b", "é", "É", "e", "", "None", "a,b", "a;b", "a/b", "a\n"]
ident = st.one_of(st.integers(0, 10**9).map(str), st.text(min_size=0, max_size=8), st.sampled_from(["16206-rtbf", "a.b", "é", "with space", '"']), st.sampled_from(RELATED))
num = st.one_of(st.integers(1, 900).map(float), st.floats(1e-3, 1e6), st.floats(1, 100))


@st.composite
def st_peaks(draw, ids=ident, min_col=0):
    ncol = draw(st.integers(min_col, 6))
    nrow = draw(st.one_of(st.none(), st.integers(1, 4)))
    size = ncol * (nrow or 1)
    attrs = draw(st.lists(st.sampled_from(EXTRA), unique=True, max_size=5))
    return {"id": draw(ids), "ncol": ncol, "nrow": nrow, "f": draw(st.lists(num, min_size=size, max_size=size)), "v": draw(st.lists(num, min_size=size, max_size=size)),
            "miss": draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=size, max_size=size)),
            "rej": draw(st.lists(st.sampled_from([0, 0, 1]), min_size=size, max_size=size)),
            "extra": {k: draw(st.lists(st.one_of(num, st.floats(-50, 50), st.sampled_from([None, None, "inf", "-inf"])), min_size=size, max_size=size)) for k in attrs}}


def bulk_set(ident, seed, ncol=30, nrow=3):
    """A set as large as those of practice, from one seed."""
    n = ncol * nrow
    return {"id": ident, "ncol": ncol, "nrow": nrow, "f": [float(q) for q in np.round(50 + 49 * noise(n, seed), 6)], "v": [float(q) for q in 400 + 300 * noise(n, seed + 1)],
            "miss": flags(n, seed + 2, 0.2), "rej": flags(n, seed + 3, 0.2),
            "extra": {"azimuth": [float(q) for q in 180 + 180 * noise(n, seed + 4)], "power": [None if q < -0.9 else float(q) for q in noise(n, seed + 5)]}}


def arrays(c):
    """(frequency, velocity, extra) as arrays of the drawn shape; None stands for a missing number."""
    sh = (c["ncol"],) if c["nrow"] is None else (c["nrow"], c["ncol"])
    f = np.array(c["f"], float).reshape(sh)
    v = np.where(np.array(c["miss"], bool), np.nan, np.array(c["v"], float)).reshape(sh)
    ex = {k: np.array([np.nan if q is None else float(q) for q in w], float).reshape(sh) for k, w in c["extra"].items()}
    return f, v, ex


def valid(c, rejected=True):
    f, v, _ = arrays(c)
    ok = ~np.isnan(v)
    if rejected and c.get("reject", True):
        ok &= ~np.array(c["rej"], bool).reshape(v.shape)
    return ok


def build(c):
    """The peak set, with the drawn points rejected one by one through the public call."""
    f, v, ex = arrays(c)
    p = Peaks(f.tolist(), v.tolist(), identifier=c["id"], **{k: w.tolist() for k, w in ex.items()})
    return p


def reject_some(p, c):
    """Reject points outside drawn limits; returns nothing (validity is then read from the object itself)."""
    lo, hi = c["lims"]
    p.reject_limits_outside("frequency", (lo, hi))


def check_against(p, c, ok, what):
    f, v, ex = arrays(c)
    ensure(p.identifier == str(c["id"]), f"{what}: identifier", got=p.identifier)
    ensure(set(p.attrs) == {"frequency", "velocity", *ex}, f"{what}: attributes", got=p.attrs)
    ensure(np.array_equal(p.frequency, f[ok]), f"{what}: frequencies", got=p.frequency, want=f[ok])
    ensure(np.array_equal(p.velocity, v[ok]), f"{what}: velocities", got=p.velocity, want=v[ok])
    for k, w in ex.items():
        got = getattr(p, k) if k != "quality" else np.asarray(getattr(p, "_quality"))[ok]
        ensure(np.array_equal(got, w[ok], equal_nan=True), f"{what}: {k}", got=got, want=w[ok])
    ensure_close(p.wavelength, v[ok] / f[ok], f"{what}: wavelength", rtol=1e-12)


@st.composite
def case_one(draw):
    c = draw(st_peaks())
    c["lims"] = draw(st.sampled_from([[None, None], [5.0, None], [None, 50.0], [3.0, 400.0], [1e7, None]]))
    return c


def limited(c):
    f, v, _ = arrays(c)
    ok = ~np.isnan(v)
    lo, hi = c["lims"]
    with np.errstate(invalid="ignore"):
        if lo is not None:
            ok &= ~(f < lo)
        if hi is not None:
            ok &= ~(f > hi)
    return ok


@P.check(case_one, 900)
def roundtrip(c, r):
    """Writing then reading reproduces identifier, attributes and the accepted peaks, repeatedly; writing changes nothing."""
    p = build(c)
    reject_some(p, c)
    ok = limited(c)
    r.nt(ok.size and not ok.all() and c["extra"])
    r.label("1-D" if c["nrow"] is None else "2-D", "all rejected" if not ok.any() else "some kept")
    check_against(p, c, ok, "before writing")
    p.to_json("a.json")
    check_against(p, c, ok, "after writing")
    q = Peaks.from_json("a.json")
    check_against(q, c, ok, "read back")
    ensure(q == p and p == q, "read back differs from the original")
    q.to_json("b.json")
    check_against(Peaks.from_json("b.json"), c, ok, "second generation")
    s = PeaksSuite.from_json("a.json")
    ensure(len(s) == 1, "one member")
    check_against(s[0], c, ok, "read as a suite")
    # what was rejected stays rejected: re-opening the limits does not bring it back
    q.reject_limits_outside("frequency", (None, 1e12))
    check_against(q, c, ok, "after a wide limit")
    # overwriting replaces
    other = Peaks([1, 2], [3, 4], identifier="other")
    other.to_json("a.json")
    with open("a.json") as f:
        ensure(list(json.load(f)) == ["other"], "overwriting kept old data")


@st.composite
def case_many(draw):
    if draw(st.integers(0, 24)) == 24:                       # as many sets as in practice, named by numbers
        k = draw(st.sampled_from([11, 25]))
        first, step = draw(st.integers(0, 300)), draw(st.sampled_from([1, 7, -1]))
        c = {"sets": [bulk_set(str(1000 + first + step * i), draw(seeds)) for i in range(k)], "dup": draw(st.integers(0, k - 1)), "how": draw(st.sampled_from(["append", "suite", "dict", "files"])),
             "split": draw(st.integers(0, k)), "new": draw(st.integers(0, len(RELATED) - 1)), "lims": draw(st.sampled_from([[None, None], [5.0, None], [3.0, 400.0]]))}
        for q in c["sets"]:
            q["lims"] = c["lims"]
        return c
    k = draw(st.integers(1, 5))
    ids = draw(st.lists(draw(st.sampled_from([ident, st.sampled_from(RELATED)])), min_size=k, max_size=k, unique=True))
    c = {"sets": [draw(st_peaks(st.just(i))) for i in ids], "dup": draw(st.integers(0, k - 1)), "how": draw(st.sampled_from(["append", "suite", "dict", "files"])),
         "split": draw(st.integers(0, k)), "new": draw(st.integers(0, len(RELATED) - 1)), "lims": draw(st.sampled_from([[None, None], [5.0, None], [3.0, 400.0]]))}
    for q in c["sets"]:
        q["lims"] = c["lims"]
    return c


@P.check(case_many, 600)
def collections(c, r):
    """Suites survive writing and reading in order; appending adds without disturbing; a duplicate is refused and the file is left as it was."""
    ps = [build(q) for q in c["sets"]]
    r.nt(len(ps) > 1)
    r.label(c["how"], f"{len(ps)} members")
    suite = PeaksSuite.from_peaks(ps)
    suite.reject_limits_outside("frequency", c["lims"])
    if c["how"] == "append":
        for i, p in enumerate(ps):
            p.to_json("s.json", append=i > 0)
        back = PeaksSuite.from_json("s.json")
    elif c["how"] == "suite":
        suite.to_json("s.json")
        back = PeaksSuite.from_json("s.json")
    elif c["how"] == "dict":
        suite.to_json("s.json")
        with open("s.json") as f:
            d = json.load(f)
        keep = json.dumps(d)
        back = PeaksSuite.from_dict([{k: v} for k, v in d.items()])
        ensure(json.dumps(d) == keep, "the caller's dictionaries were modified")
        again = PeaksSuite.from_dict([{k: v} for k, v in d.items()])
        ensure(again == back, "the same dictionaries gave another suite the second time")
        ensure(json.dumps(d) == keep, "the caller's dictionaries were modified")
    else:
        parts = [ps[:c["split"]], ps[c["split"]:]]
        names = []
        for i, part in enumerate(parts):
            if part:
                PeaksSuite.from_peaks(part).to_json(f"p{i}.json")
                names.append(f"p{i}.json")
        back = PeaksSuite.from_json(names)
        suite.to_json("s.json")
    ensure(len(back) == len(ps), "number of members", got=len(back))
    ensure(back == suite and suite == back, "the suite read back differs")
    for p, q in zip(back, c["sets"]):
        check_against(p, q, limited(q), "member read back")
    with open("s.json", "rb") as f:
        raw = f.read()
    with must_raise(KeyError, msg="a duplicate identifier was written"):
        ps[c["dup"]].to_json("s.json", append=True)
    with open("s.json", "rb") as f:
        ensure(f.read() == raw, "a refused append modified the file")
    ensure(Peaks.from_json("s.json") == ps[0], "reading one set from a file of several gives the first")
    name = next(q for q in RELATED[c["new"]:] + RELATED if q not in [p.identifier for p in ps])
    new = Peaks([3.0, 4.0], [100.0, 200.0], identifier=name)
    new.to_json("s.json", append=True)
    more = PeaksSuite.from_json("s.json")
    ensure(len(more) == len(ps) + 1 and more[len(ps)] == new, "appended set")
    for p, q in zip(more, c["sets"]):
        check_against(p, q, limited(q), "member after an append")


@st.composite
def case_mask(draw):
    c = draw(st_peaks(min_col=1))
    size = len(c["f"])
    return {**c, "mask": draw(st.one_of(st.lists(st.booleans(), min_size=size, max_size=size), st.just([True] * size), st.just([False] * size))), "form": draw(st.sampled_from(["list", "array", "numbers", "file"]))}


@P.check(case_mask, 300)
def masks(c, r):
    """A mapping (or a file) which lists what is accepted is read with exactly those peaks accepted."""
    f, v, ex = arrays(c)
    ok = np.array(c["mask"], bool).reshape(v.shape) & ~np.isnan(v)
    r.nt(ok.any() and not ok.all())
    r.label(c["form"])
    mask = {"array": ok.copy(), "numbers": ok.astype(int).tolist()}.get(c["form"], ok.tolist())
    d = {"frequency": f.tolist(), "velocity": v.tolist(), **{k: w.tolist() for k, w in ex.items()}, "valid": mask}
    keys = list(d)
    if c["form"] == "file":
        with open("m.json", "w") as g:
            json.dump({str(c["id"]): d}, g)
        p, s = Peaks.from_json("m.json"), PeaksSuite.from_json("m.json")
    else:
        p, s = Peaks.from_dict(d, identifier=c["id"]), PeaksSuite.from_dict({str(c["id"]): d})
    ensure(list(d) == keys and d["valid"] is mask, "the mapping was altered")
    check_against(p, c, ok, "read from a mapping")
    check_against(s[0], c, ok, "read from a mapping as a suite")
    if c["form"] == "array":
        mask[...] = ~mask
        check_against(p, c, ok, "after the caller's mask changed")
