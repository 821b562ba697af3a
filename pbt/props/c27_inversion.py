from lib import *

P = Property("C27", rule="Linear and mildly non-linear problems with 1-5 parameters and 1-7 data, full (correlated) well-conditioned prior and data covariances; "
             "non-trivial = at least two parameters and correlated covariances.",
             assumptions=["covariances are symmetric positive definite with condition number below 1e4 (one parameter may be known exactly)"])


@st.composite
def case_ls(draw):
    j, k = draw(st.integers(1, 5)), draw(st.integers(1, 7))
    return {"j": j, "k": k, "seed": draw(seeds), "diag": draw(st.booleans()), "scale": draw(st.sampled_from([0.01, 1.0, 30.0])), "pm": draw(st.sampled_from(["prior", "other"])),
            "iters": draw(st.integers(1, 4)), "spread": draw(st.sampled_from([0, 0, 1, 3, 4])), "fit": draw(st.booleans()), "whole": draw(st.sampled_from(["", "", "p0", "pm", "d0", "dm", "all"])), "units": draw(st.sampled_from([[1e3, 1e-4], [1e-6, 1e5], [1e-7, 1e-7], [1e8, 1e8]]))}


def spd(n, seed, diag):
    a = np.diag(1.0 + 0.5 * noise(n, seed))
    if not diag:
        b = noise(n * n, seed + 1).reshape(n, n)
        a = a + 0.3 * b @ b.T / n
    return a


def api():
    from swprocess import inversion
    return inversion


@P.check(case_ls, 1200)
def one_step(c, r):
    """One step and the posterior covariance agree with the information form of Bayesian least squares."""
    inv = api()
    j, k, s = c["j"], c["k"], c["seed"]
    cp, cd = spd(j, s, c["diag"]), spd(k, s + 5, c["diag"]) * c["scale"]
    g = noise(k * j, s + 11).reshape(k, j)
    p0 = noise(j, s + 13, 3).reshape(j, 1)
    pm = p0.copy() if c["pm"] == "prior" else noise(j, s + 17, 3).reshape(j, 1)
    d0, dm = noise(k, s + 19, 5).reshape(k, 1), noise(k, s + 23, 5).reshape(k, 1)
    if c["fit"]:
        dm = g @ pm + 0.7        # a linear forward problem
        d0 = g @ p0 + 0.7 + 0.1 * d0
    whole = {"p0": 0, "pm": 1, "d0": 3, "dm": 4}
    args = [p0, pm, cp, d0, dm, cd, g]
    for name, i in whole.items():                        # given as whole numbers
        if c["whole"] in (name, "all"):
            args[i] = np.round(10 * args[i]).astype(int)
    p0, pm, cp, d0, dm, cd, g = args
    keep = [a.copy() for a in args]
    r.nt(j > 1 and not c["diag"])
    r.label("more data" if k >= j else "fewer data")
    out = inv.leastsquare_iterativealgorithm(*args)
    ensure(all(np.array_equal(a, b) for a, b in zip(args, keep)), "inputs were changed")
    ensure(out.shape == (j, 1), "shape of the estimate", got=out.shape)
    info = np.linalg.inv(cp) + g.T @ np.linalg.solve(cd, g)
    want = p0 + np.linalg.solve(info, g.T @ np.linalg.solve(cd, d0 - dm + g @ (pm - p0)))
    ensure_close(out, want, "estimate", rtol=1e-7, atol=1e-9)
    cov = inv.leastsquare_posterioricovmatrix(cp, cd, g)
    ensure(all(np.array_equal(a, b) for a, b in zip(args, keep)), "inputs were changed")
    ensure_close(cov, np.linalg.inv(info), "posterior covariance", rtol=1e-7, atol=1e-10)
    ensure_close(cov, cov.T, "symmetry", rtol=1e-7, atol=1e-10)
    ensure(np.all(np.linalg.eigvalsh((cov + cov.T) / 2) > 0) and np.all(np.linalg.eigvalsh(cp - (cov + cov.T) / 2) > -1e-9), "data must not increase uncertainty")
    u, w = c["units"]                                    # the same problem with parameters and data in other units
    units = [u * p0, u * pm, u * u * cp, w * d0, w * dm, w * w * cd, (w / u) * g]
    ensure_close(inv.leastsquare_iterativealgorithm(*units) / u, want, "estimate in other units", rtol=1e-7, atol=1e-9)
    ensure_close(inv.leastsquare_posterioricovmatrix(units[2], units[5], units[6]) / u ** 2, np.linalg.inv(info), "posterior covariance in other units", rtol=1e-7, atol=1e-10)
    if j > 1:                                            # a parameter which is known exactly
        fixed = cp.copy()
        fixed[s % j, :] = fixed[:, s % j] = 0
        q = fixed @ g.T @ np.linalg.inv(cd + g @ fixed @ g.T)
        ensure_close(inv.leastsquare_posterioricovmatrix(fixed, cd, g), fixed - q @ g @ fixed, "posterior covariance where a parameter is known exactly", rtol=1e-7, atol=1e-10)
        ensure_close(inv.leastsquare_iterativealgorithm(p0, pm, fixed, d0, dm, cd, g), p0 + q @ (d0 - dm + g @ (pm - p0)), "estimate where a parameter is known exactly",
                     rtol=1e-7, atol=1e-9)
    # each parameter and each datum in a unit of its own: accuracies which differ by many orders of magnitude
    u, w = [10.0 ** (c["spread"] * noise(q, s + 29 + q)).reshape(q, 1) for q in (j, k)]
    each = [u * p0, u * pm, u * cp * u.T, w * d0, w * dm, w * cd * w.T, w * g / u.T]
    ensure_close(inv.leastsquare_iterativealgorithm(*each) / u, want, "estimate with a unit for each quantity", rtol=1e-6, atol=1e-7)
    ensure_close(inv.leastsquare_posterioricovmatrix(each[2], each[5], each[6]) / (u * u.T), np.linalg.inv(info), "posterior covariance with a unit for each quantity",
                 rtol=1e-6, atol=1e-8)


@P.check(case_ls, 300)
def iterations(c, r):
    """For a linear problem one step is the minimum of the misfit whatever the starting point, and further steps stay there."""
    inv = api()
    j, k, s = c["j"], c["k"], c["seed"]
    cp, cd = spd(j, s, c["diag"]), spd(k, s + 5, c["diag"]) * c["scale"]
    g = noise(k * j, s + 11).reshape(k, j)
    p0, off = noise(j, s + 13, 3).reshape(j, 1), noise(k, s + 3).reshape(k, 1)
    d0 = noise(k, s + 19, 5).reshape(k, 1)
    r.nt(j > 1 and not c["diag"])
    pm = p0 if c["pm"] == "prior" else noise(j, s + 17, 3).reshape(j, 1)
    ends = []
    for _ in range(c["iters"]):
        pm = inv.leastsquare_iterativealgorithm(p0, pm, cp, d0, g @ pm + off, cd, g)
        ends.append(pm)
    ensure_close(ends[-1], ends[0], "the solution of a linear problem moves", rtol=1e-7, atol=1e-9)

    def misfit(p):
        a, b = d0 - g @ p - off, p - p0
        return float((a.T @ np.linalg.solve(cd, a) + b.T @ np.linalg.solve(cp, b)).item())
    best = misfit(pm)
    for q in range(2 * j):
        step = np.zeros((j, 1))
        step[q // 2] = 1e-2 * (1 if q % 2 else -1)
        ensure(misfit(pm + step) >= best - 1e-9 * max(1, best), "a neighbouring model fits better", best=best, other=misfit(pm + step))
