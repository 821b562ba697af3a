from lib import *

P = Property("C05", rule="Pairs of equal-length records (3-40 samples, now and then thousands): independent, or one a shifted (possibly scaled, noisy) copy of the other; "
             "non-trivial = the best shift is not zero.",
             assumptions=["when several lags tie for the maximum (to rounding) any of them is accepted",
                          "a shorter record moved past its own end is not specified"])


@st.composite
def case_pair(draw):
    n = sized(draw, 3, 40, (400, 1500, 5000))
    kind = draw(st.sampled_from(["random", "int" if n <= 40 else "random", "shifted", "shifted"]))
    c = {"n": n, "kind": kind, "dt": draw(st.sampled_from(DTS)), "na": draw(st.integers(1, 6)), "nb": draw(st.integers(1, 6)),
         "pre": draw(st.integers(0, 3)), "seed": draw(seeds),
         "mode": draw(st.sampled_from(["full", "same", "valid"])), "method": draw(st.sampled_from(["auto", "direct", "fft"]))}
    if kind == "int":
        c["a"] = draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n))
        c["b"] = draw(st.lists(st.integers(-9, 9), min_size=n, max_size=n))
    elif kind == "shifted":
        c["w"] = draw(st.integers(1, max(1, n // 3)))
        c["pa"] = draw(st.integers(0, n - c["w"]))
        c["pb"] = draw(st.integers(0, n - c["w"]))
        c["gain"] = draw(st.sampled_from([1.0, 0.5, 3.0]))
    return c


def pair(c):
    n = c["n"]
    if c["kind"] == "int":
        return np.array(c["a"], float), np.array(c["b"], float)
    if c["kind"] == "random":
        return noise(n, c["seed"]), noise(n, c["seed"] + 7)
    w = noise(c["w"], c["seed"]) + 1.5
    a, b = np.zeros(n), np.zeros(n)
    a[c["pa"]:c["pa"] + c["w"]] = w
    b[c["pb"]:c["pb"] + c["w"]] = w * c["gain"]
    return a, b


def moved(b, s):
    n = len(b)
    out = np.zeros(n)
    if n > 40:
        out[max(0, s):n + min(0, s)] = b[max(0, -s):n - max(0, s)]
        return out
    for i in range(n):
        if 0 <= i - s < n:
            out[i] = b[i - s]
    return out


def every_lag(a, b):
    """The textbook sum at every lag: sum of a[i] b[i-s]."""
    na, nb = len(a), len(b)
    if max(na, nb) > 40:
        return [float(q) for q in np.correlate(a, b, "full")]
    return [float(sum(a[i] * b[i - s] for i in range(max(0, s), min(na, nb + s)))) for s in range(-(nb - 1), na)]


@P.check(case_pair, 1500)
def alignment(c, r):
    """The shift found maximises the correlation, and the aligned copy is the second record moved by it, zero filled."""
    a, b = pair(c)
    n = c["n"]
    mk = lambda x, k: ActiveTimeSeries(x, c["dt"], nstacks=k, delay=-c["pre"] * c["dt"])  # noqa: E731
    ta, tb = mk(a, c["na"]), mk(b, c["na"])
    sa, sb = state_of(ta), state_of(tb)
    shift, out = ActiveTimeSeries.crosscorr_shift(ta, tb)
    out = np.asarray(out)
    ensure(out.shape == (n,), "aligned record has another length", shape=out.shape)
    ensure(np.array_equal(out, moved(b, int(shift))), "aligned record is not the second record moved by the reported shift", shift=int(shift), out=out)
    lags = range(-(n - 1), n)
    vals = dict(zip(lags, every_lag(a, b)))
    best = max(vals.values())
    tol = 1e-9 * (np.linalg.norm(a) * np.linalg.norm(b) + 1e-30)
    ensure(vals[int(shift)] >= best - tol, "a better shift exists", shift=int(shift), value=vals[int(shift)], best=best)
    r.nt(int(shift) != 0)
    r.label(c["kind"], "right" if shift > 0 else "left" if shift < 0 else "zero")
    if c["kind"] == "shifted":
        ensure(int(shift) == c["pa"] - c["pb"], "known shift not recovered", shift=int(shift), want=c["pa"] - c["pb"])
        ensure_close(out, a * c["gain"], "aligned record does not match the reference")
    out[:] = 99
    ensure_state(sa, state_of(ta), "the first record was modified")
    ensure_state(sb, state_of(tb), "the second record was modified")

    full = np.asarray(ActiveTimeSeries.crosscorr(ta, tb))
    ensure_close(full, [vals[s] for s in lags], "cross-correlation values", atol=tol, rtol=1e-8)

    # options of the correlation are passed on
    mode, n0 = c["mode"], {"full": 2 * n - 1, "same": n, "valid": 1}[c["mode"]]
    kw = {"mode": mode, "method": c["method"]}
    k0 = (2 * n - 1 - n0) // 2
    part = np.asarray(ActiveTimeSeries.crosscorr(ta, tb, correlate_kwargs=kw))
    ensure(part.shape == (n0,), "lags returned", mode=mode, got=part.shape, want=n0)
    ensure_close(part, [vals[s] for s in lags][k0:k0 + n0], "correlation values in the mode asked for", atol=tol, rtol=1e-8)
    ensure(kw == {"mode": mode, "method": c["method"]}, "the options given were modified", kw=kw)

    # stack of the aligned record onto the first
    ta, tb = mk(a, c["na"]), mk(b, c["nb"])
    sa, sb = state_of(ta), state_of(tb)
    st_ = ActiveTimeSeries.from_cross_stack(ta, tb)
    ensure(st_.nstacks == c["na"] + c["nb"], "stack count after cross-stacking")
    options = [s for s in lags if vals[s] >= best - tol]
    got = np.asarray(st_.amplitude)
    ensure(any(close(got, (a * c["na"] + moved(b, s) * c["nb"]) / (c["na"] + c["nb"])) for s in options), "cross-stack is not the weighted mean of the aligned records")
    ensure_state(sa, state_of(ta), "cross-stacking modified the first record")
    ensure_state(sb, state_of(tb), "cross-stacking modified the second record")
    ensure(st_.dt == c["dt"] and st_.delay == -c["pre"] * c["dt"], "cross-stack metadata")


@st.composite
def case_close(draw):
    n = sized(draw, 6, 40, (400,))
    i, j = sorted(draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=2, unique=True)))
    return {"n": n, "i": i, "j": j, "k": draw(st.integers(0, n - 1)), "by": draw(st.sampled_from([1e-9, -1e-9, 1e-7, -1e-7, 1e-4, -1e-4])), "dt": draw(st.sampled_from(DTS)),
            "scale": draw(st.sampled_from([1.0, 1e6, 1e-9]))}


@P.check(case_close, 250)
def nearly_tied(c, r):
    """Of two lags whose correlations differ in the tenth digit the better one is found."""
    r.nt()
    a, b = np.zeros(c["n"]), np.zeros(c["n"])
    a[c["i"]], a[c["j"]], b[c["k"]] = c["scale"], c["scale"] * (1 + c["by"]), 1.0
    want = (c["j"] if c["by"] > 0 else c["i"]) - c["k"]
    shift, out = ActiveTimeSeries.crosscorr_shift(ActiveTimeSeries(a, c["dt"]), ActiveTimeSeries(b, c["dt"]))
    ensure(int(shift) == want, "the better of two lags was not taken", got=int(shift), want=want)
    ensure(np.array_equal(out, moved(b, want)), "aligned record")


@st.composite
def case_lengths(draw):
    na = sized(draw, 3, 40, (400, 3000))
    nb = sized(draw, 3, 40, (400, 3000))
    w = draw(st.integers(1, min(na, nb)))
    return {"na": na, "nb": nb, "w": w, "pa": draw(st.integers(0, na - w)), "pb": draw(st.integers(0, nb - w)), "seed": draw(seeds), "random": draw(st.integers(0, 3)) == 0,
            "dt": draw(st.sampled_from(DTS)), "gain": draw(st.sampled_from([1.0, 0.5, 3.0])), "exclude": draw(st.sampled_from([["nsamples"], "nsamples", ["nsamples", "nstacks"]]))}


@P.check(case_lengths, 500)
def lengths(c, r):
    """Records of different length, where the caller allows them: every lag is covered and the known shift is found."""
    na, nb = c["na"], c["nb"]
    if c["random"]:
        a, b = noise(na, c["seed"]), noise(nb, c["seed"] + 7)
    else:
        w = noise(c["w"], c["seed"]) + 1.5
        a, b = np.zeros(na), np.zeros(nb)
        a[c["pa"]:c["pa"] + c["w"]] = w
        b[c["pb"]:c["pb"] + c["w"]] = w * c["gain"]
    ta, tb = ActiveTimeSeries(a, c["dt"]), ActiveTimeSeries(b, c["dt"])
    sa, sb = state_of(ta), state_of(tb)
    ex = c["exclude"] if isinstance(c["exclude"], str) else tuple(c["exclude"])
    lags = np.arange(-(nb - 1), na)
    want = every_lag(a, b)
    tol = 1e-9 * (np.linalg.norm(a) * np.linalg.norm(b) + 1e-30)
    ensure_close(np.asarray(ActiveTimeSeries.crosscorr(ta, tb)), want, "cross-correlation values", atol=tol, rtol=1e-8)
    shift, out = ActiveTimeSeries.crosscorr_shift(ta, tb, exclude=ex)
    shift = int(shift)
    r.nt(na != nb)
    r.label("random" if c["random"] else "shifted", "shorter" if nb < na else "longer" if nb > na else "equal", "moved" if shift else "zero")
    ensure(-(nb - 1) <= shift <= na - 1, "shift outside the lags", shift=shift)
    ensure(want[shift + nb - 1] >= max(want) - tol, "a better shift exists", shift=shift, best=int(lags[int(np.argmax(want))]))
    if not c["random"]:
        ensure(shift == c["pa"] - c["pb"], "known shift not recovered", shift=shift, want=c["pa"] - c["pb"])
    if abs(shift) < nb:
        ensure(np.array_equal(out, moved(b, shift)), "aligned record is not the second record moved by the reported shift", shift=shift, out=out)
    ensure_state(sa, state_of(ta), "the first record was modified")
    ensure_state(sb, state_of(tb), "the second record was modified")
    if na != nb:
        with must_raise(ValueError, msg="records of different length were aligned unasked"):
            ActiveTimeSeries.crosscorr_shift(ta, tb)


@st.composite
def case_bad(draw):
    c = draw(case_pair())
    c["how"] = draw(st.sampled_from(["dt", "delay", "nsamples", "nstacks"]))
    return c


@P.check(case_bad, 300)
def refuse(c, r):
    """Records on different time bases are never correlated."""
    a, b = pair(c)
    r.nt()
    r.label(c["how"])
    ta = ActiveTimeSeries(a, c["dt"], nstacks=c["na"], delay=-c["pre"] * c["dt"])
    kw = dict(amplitude=b, dt=c["dt"], nstacks=c["na"], delay=-c["pre"] * c["dt"])
    if c["how"] == "dt":
        kw["dt"] *= 2
    elif c["how"] == "delay":
        kw["delay"] -= c["dt"]
    elif c["how"] == "nsamples":
        kw["amplitude"] = np.append(b, 1.0)
    else:
        kw["nstacks"] += 1
    tb = ActiveTimeSeries(**kw)
    with must_raise(ValueError, msg=f"records differing in {c['how']} were aligned"):
        ActiveTimeSeries.crosscorr_shift(ta, tb)
    if c["how"] in ("dt", "delay"):
        with must_raise(ValueError, msg=f"records differing in {c['how']} were cross-stacked"):
            ActiveTimeSeries.from_cross_stack(ta, tb)
