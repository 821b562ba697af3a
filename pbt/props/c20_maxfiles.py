from lib import *

P = Property("C20", rule="Result files generated line by line (1-4 times and 1-6 frequencies whose texts are prefixes and suffixes of each other, 1-4 or up to 30 maxima, mixed components, "
             "valid and invalid rows in any order, infinite noise, exponents); non-trivial = several times and frequencies and at least one invalid or other-component row.",
             assumptions=["a file holds at most as many maxima per time, frequency and component as its header states", "two different texts denote different times or, within a time window, different frequencies"])

HEAD = """# MAX FORMAT RELEASE 1.1
#
# BEGIN SOFTWARE VERSION
#
  Qt                  5.12.3
  QGpCoreTools        2.2.0 from geopsypack-{version}
#
# END SOFTWARE VERSION
#
UT_STN11 9.31 47.18 0.00
UT_STN19 -1.18 24.27 0.00
#
FROM_TIME_TEXT=20170609223200.000000
MINIMUM_FREQUENCY=1
PROCESS_TYPE={process}
N_MAXIMA={nmaxima}
# If provided and PROCESS_TYPE==DirectSteering, the ellipticity is forced to the provided curve.
MAXIMUM_DISTANCE=inf
#
# abs_time frequency polarization slowness azimuth ellipticity noise power valid
"""
TIMES = ["20170609223200.000000", "20170609223200.00000", "120170609223200.000000", "20170609223201.000000", "16200", "16200.5", "1620", "200", "6200.5", "20170609223200.0000001", "0060", "000.250"]
FREQS = ["1", "1.1", "11", "1.12", "21", "21.1", "2", "1.1200499091501965321", "11.200499091501965", "1.1200499", "0.5", "5", "0.15", "2.5e-01", "2.5e+01"]
SLOW = ["0.00036651635412268175227", "0.0018554754628104259268", "0.002", "0.0102", "3.6e-03", "0.01", "1.5e-03", "0.001", "0.00212"]
num6 = st.one_of(st.sampled_from(["0", "1", "1.1", "359.9", "10.5", "1e-05", "-3.25", "1.5e+02"]), st.floats(-400, 400).map(lambda v: f"{v:.8f}"))


def hash_text(s):
    return sum((k + 1) * ord(q) for k, q in enumerate(s))


@st.composite
def st_maxfile(draw, waves=None, times=None):
    kind = draw(st.sampled_from(["3c", "3c", "vertical", "radial"])) if waves is None else waves
    w = {"3c": ["Rayleigh", "Love"], "vertical": ["Vertical"], "radial": ["Radial", "Transverse"]}[kind]
    nmax = draw(st.sampled_from([1, 2, 3, 4, 4, 30]))
    ts = draw(st.lists(st.sampled_from(TIMES), min_size=1, max_size=4, unique=True)) if times is None else times
    fs = draw(st.lists(st.sampled_from(FREQS), min_size=1, max_size=6, unique=True))
    rows, used = [], {}
    n = draw(st.integers(1, 24))
    slots = [(t, f, q) for t in ts for f in fs for q in w]
    if nmax == 30:      # a crowd of peaks at a few places
        n, slots = n + 24, slots[:draw(st.integers(1, 2))]
    for k in draw(st.lists(st.integers(0, len(slots) - 1), min_size=n, max_size=n)):
        t, f, q = slots[k]
        ok = draw(st.sampled_from([1, 1, 1, 0]))
        if ok:
            if used.get(k, 0) >= nmax:
                continue
            used[k] = used.get(k, 0) + 1
        rows.append([t, f, q, draw(st.sampled_from(SLOW)), draw(num6), draw(num6), draw(st.one_of(num6, st.sampled_from(["inf", "nan", "-inf"]))), f"{len(rows) * 7 + draw(st.sampled_from([1, 10, 1000]))}.{draw(st.sampled_from(['', '25', '125']))}".rstrip("."), ok])
    if times is None and draw(st.integers(0, 59)) == 59:     # as many windows and frequencies as in practice
        seed, ts, fs = draw(seeds), [f"20170609{22 + k // 40}{k % 40 + 10}00.500000" for k in range(draw(st.sampled_from([3, 14])))], [f"{2.5 * 1.17 ** k:.12g}" for k in range(draw(st.sampled_from([4, 12])))]
        rows = [[t, f, q, f"{0.001 + 0.0009 * u:.14f}", f"{180 + 180 * u:.8f}", f"{u:.8f}", "inf" if u > 0.9 else f"{u * u:.6f}", f"{len(fs) * m + 1000 * abs(u):.7f}", int(u > -0.8)]
                for t in ts for f in fs for q in w for m, u in enumerate(noise(min(nmax, 3), seed + hash_text(t + f + q)))]
    if draw(st.integers(0, 3)) == 0:     # later windows write the same frequencies another way
        other = {"1": "1.0", "2": "2.00", "0.5": "0.50", "5": "5.0e+00"}
        for q in rows:
            if q[0] != ts[0]:
                q[1] = other.get(q[1], q[1])
    return {"kind": kind, "nmaxima": draw(st.sampled_from([nmax, nmax, nmax + 1, 100, 250])) if nmax > 1 else draw(st.sampled_from([0, 1, 1, 3])),
            "process": draw(st.sampled_from(["RTBF", "rtbf", "Conventional", "Capon", "Omni"])), "rows": rows, "crlf": draw(st.booleans()),
            "tail": draw(st.sampled_from(["", "\n", "# end\n"])), "ask": draw(st.sampled_from({"3c": ["rayleigh", "rayleigh", "love"], "vertical": ["rayleigh", "vertical"], "radial": ["radial", "transverse"]}[kind]))}


def write(c, fname, version="3.2.0"):
    text = HEAD.format(version=version, process=c["process"], nmaxima=c["nmaxima"])
    text += "".join(" ".join(str(v) for v in row) + "\n" for row in c["rows"]) + c["tail"]
    with open(fname, "w", newline="") as f:
        f.write(text.replace("\n", "\r\n") if c["crlf"] else text)


def wanted(c, ask=None):
    """{identifier: rows}, in order of first appearance."""
    ask = c["ask"] if ask is None else ask
    good = [q for q in c["rows"] if q[8] == 1]
    vertical = bool(good) and good[0][2] == "Vertical"
    if vertical and ask == "rayleigh":
        ask = "vertical"
    proc = "capon" if c["process"].lower() == "rtbf" and vertical else c["process"].lower()
    out = {}
    for q in good:
        if q[2] == ask.capitalize():
            out.setdefault(f"{q[0]}-{proc}", []).append(q)
    return out


def ensure_set(p, ident, rows, what):
    ensure(p.identifier == ident, f"{what}: identifier", got=p.identifier, want=ident)
    cols = [p.frequency, p.slowness, p.azimuth, p.ellipticity, p.noise, p.power]
    ensure(all(len(q) == len(rows) for q in cols), f"{what}: number of peaks", got=[len(q) for q in cols], want=len(rows))
    got = np.array(cols).T.reshape(-1, 6)
    want = np.array([[float(q[k]) for k in (1, 3, 4, 5, 6, 7)] for q in rows]).reshape(-1, 6)
    got, want = got[np.argsort(got[:, 5], kind="stable")], want[np.argsort(want[:, 5], kind="stable")]
    for k, name in enumerate(("frequency", "slowness", "azimuth", "ellipticity", "noise", "power")):
        ensure_close(got[:, k], want[:, k], f"{what}: {name}", rtol=1e-12)
    # the strongest peak at each frequency
    best = {}
    for q in rows:
        if float(q[1]) not in best or float(q[7]) > best[float(q[1])][0]:
            best[float(q[1])] = (float(q[7]), float(q[3]))
    f, v = p.simplify_mpeaks("frequency"), p.simplify_mpeaks("slowness")
    ensure_close(dict_sorted(f, v), dict_sorted(list(best), [best[k][1] for k in best]), f"{what}: best peak of each frequency", rtol=1e-12)


def dict_sorted(a, b):
    o = np.argsort(a, kind="stable")
    return np.array([np.asarray(a, float)[o], np.asarray(b, float)[o]])


@P.check(st_maxfile, 1500, 12000)
def parse(c, r):
    """Valid rows of the requested component, no more and no less, grouped by time."""
    want = wanted(c)
    if not want:
        r.label("nothing of that kind")
        return
    write(c, "a.max")
    r.nt(len(want) > 1 and len({q[1] for w in want.values() for q in w}) > 1 and sum(map(len, want.values())) < len(c["rows"]))
    r.label(c["kind"], c["process"].lower(), f"{len(want)} times", "invalid rows" if any(q[8] == 0 for q in c["rows"]) else "all valid")
    suite = PeaksSuite.from_max("a.max", wavetype=c["ask"])
    ensure([p.identifier for p in suite] == list(want), "sets found", got=[p.identifier for p in suite], want=list(want))
    ensure(list(suite.ids) == list(want), "identifiers of the collection", got=suite.ids, want=list(want))
    for p in suite:
        ensure_set(p, p.identifier, want[p.identifier], "collection")
    first = next(iter(want))
    ensure_set(Peaks.from_max("a.max", wavetype=c["ask"]), first, want[first], "first set")


@P.check(lambda: st.tuples(st_maxfile(), st.sampled_from(["3.2.1", "3.1.0", "2.10.1", "13.2.0", "3.2.01", "4.2.0"]), st.sampled_from(["p", "sv", "", "Rayleighs", "rayleig", "all"])), 150)
def refuse(cc, r):
    """Files of another version and unknown components are refused."""
    c, version, wave = cc
    if not wanted(c):
        return
    r.nt(len(c["rows"]) > 1)
    write(c, "bad.max", version)
    write(c, "good.max")
    for cls in (Peaks, PeaksSuite):
        with must_raise(ValueError, msg=f"version {version}"):
            cls.from_max("bad.max", wavetype=c["ask"])
        with must_raise(ValueError, msg=f"component {wave}"):
            cls.from_max("good.max", wavetype=wave)
    for names in (["good.max", "bad.max"], ["bad.max", "good.max"]):
        with must_raise(ValueError, msg=f"version {version} in {names}"):
            PeaksSuite.from_max(names, wavetype=c["ask"])


digits = st.integers(10 ** 19, 10 ** 22).map(str)


@st.composite
def case_full(draw):
    """Rows as the program writes them: every number in full precision."""
    w = draw(st.sampled_from(["Rayleigh", "Love"]))
    rows = []
    for k in range(draw(st.integers(2, 8))):
        d = [draw(digits) for _ in range(6)]
        rows.append(["20170609223200.000000" if draw(st.booleans()) else "20170609223300.000000", f"{1 + k % 3}.{d[0]}", w, f"0.00{d[1]}", f"{k}.{d[2]}",
                     f"-0.{d[3]}", f"10.{d[4]}", f"{k + 1}.{d[5]}", draw(st.sampled_from([0, 1]))])
    rows[draw(st.integers(0, len(rows) - 1))][8] = 1
    return {"kind": "3c", "nmaxima": 20, "process": "RTBF", "rows": rows, "crlf": draw(st.booleans()), "tail": "", "ask": w.lower()}


@P.check(case_full, 60)
def full_precision(c, r):
    """Full-precision rows are read, in a time which does not depend on how many ways a number can be split."""
    import signal

    def late(*_):
        raise Violation("reading eight rows took more than 8 s of processor time")
    write(c, "a.max")
    want = wanted(c)
    r.nt(any(q[8] == 0 for q in c["rows"]))
    old = signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, 8)
    try:
        suite = PeaksSuite.from_max("a.max", wavetype=c["ask"])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    ensure([p.identifier for p in suite] == list(want), "sets found", got=[p.identifier for p in suite], want=list(want))
    for p in suite:
        ensure_set(p, p.identifier, want[p.identifier], "collection")
