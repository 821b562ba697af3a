from lib import *
from swprocess.register import WavefieldTransformRegistry as R
import swprocess.wavefieldtransforms  # noqa: F401

P = Property("C13", rule="Real and complex images (1-7 velocities, 1-6 frequencies, widely different column levels) under histories of 1-6 normalisation, "
             "peak search and refused-normalisation requests; stacks of 1-5 images with unequal counts in any order, normalised or refused something in between; non-trivial = the history uses at least two "
             "different normalisations, or the stack has at least two images.",
             assumptions=["no frequency has zero power at every velocity"])

NAMES = ["phaseshift", "fdbf", "slantstack", "fk", "empty"]


@st.composite
def st_image(draw, nv=None, nf=None):
    nv = draw(st.integers(1, 7)) if nv is None else nv
    nf = draw(st.integers(1, 6)) if nf is None else nf
    return {"nv": nv, "nf": nf, "seed": draw(seeds), "complex": draw(st.booleans()),
            "lev": draw(st.lists(st.sampled_from([1e-3, 1.0, 7.0, 1e4, 1e-15, 1e13]), min_size=nf, max_size=nf)),
            "int": draw(st.booleans())}


def power_of(c):
    sh = (c["nv"], c["nf"])
    re = noise(sh[0] * sh[1], c["seed"]).reshape(sh)
    im = noise(sh[0] * sh[1], c["seed"] + 991).reshape(sh)
    if c["int"]:
        re, im = np.floor(re * 6), np.floor(im * 6)
        re[0] += 1.0
    p = (re + 1j * im) if c["complex"] else np.abs(re)
    p = p * np.array(c["lev"])[None, :]
    bad = np.max(np.abs(p), axis=0) == 0
    p[0, bad] = 1.0
    return p


def axes_of(c):
    return 5.0 + 1.5 * np.arange(c["nf"]), 100.0 + 12.5 * np.arange(c["nv"])


def image(c, name="phaseshift"):
    f, v = axes_of(c)
    return R.create_class(name)(f, v, power_of(c))


@st.composite
def case_hist(draw):
    c = draw(st_image())
    c["name"] = draw(st.sampled_from(NAMES))
    c["ops"] = draw(st.lists(st.sampled_from(["none", "absolute-maximum", "frequency-maximum", "default", "bad", "peak", "badpeak"]), min_size=1, max_size=6))
    c["bad"] = draw(st.sampled_from(["max", "", "Frequency-Maximum", "global"]))
    return c


def expected(p, by):
    a = np.abs(p)
    if by == "none":
        return a
    if by == "absolute-maximum":
        return a / a.max()
    return a / a.max(axis=0)


@P.check(case_hist, 1500)
def history(c, r):
    """The displayed power depends only on the computed power and the latest normalisation, never on earlier ones."""
    p0 = power_of(c)
    t = image(c, c["name"])
    f, v = axes_of(c)
    cur = p0
    used = set()
    for op in c["ops"]:
        r.label(op)
        if op == "bad":
            before = np.array(t.power)
            with must_raise(Exception, msg="unknown normalisation accepted"):
                t.normalize(by=c["bad"])
            ensure(np.array_equal(before, t.power), "a refused normalisation changed the power")
        elif op == "badpeak":
            with must_raise(NotImplementedError, msg="unknown peak search accepted"):
                t.find_peak_power(by="nearest")
        elif op == "peak":
            pk = np.asarray(t.find_peak_power())
            ensure(pk.shape == (c["nf"],), "one peak per frequency", got=pk.shape)
            for i in range(c["nf"]):
                j = np.flatnonzero(v == pk[i])
                ensure(len(j) == 1, "the peak is not one of the trial velocities", got=pk[i])
                col = np.abs(p0[:, i])
                ensure(col[j[0]] >= col.max() * (1 - 1e-12), "the picked velocity does not carry the largest power", frequency=i, picked=pk[i])
        else:
            by = "frequency-maximum" if op == "default" else op
            used.add(by)
            t.normalize() if op == "default" else t.normalize(by=op)
            cur = expected(p0, by)
        if op not in ("bad",):
            ensure_close(t.power, cur, "power after " + op, rtol=0, atol=1e-300) if cur is p0 else None
        if cur is not p0:
            # relative to each column, so that a small column is not hidden by a large one
            got = np.asarray(t.power)
            ensure(got.shape == cur.shape and np.all(np.abs(got - cur) <= 1e-11 * cur.max(axis=0)), "normalised power", op=op, got=got, want=cur)
        ensure(np.array_equal(t.frequencies, f) and np.array_equal(t.velocities, v), "axes changed")
    r.nt(len(used) > 1)
    r.label("complex" if c["complex"] else "real")


@st.composite
def case_stack(draw):
    k = draw(st.integers(1, 5))
    nv, nf = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return {"imgs": [draw(st_image(nv, nf)) for _ in range(k)], "groups": draw(st.lists(st.integers(1, 3), min_size=k, max_size=k)),
            "perm": list(draw(st.permutations(range(k)))), "name": draw(st.sampled_from(NAMES[:4])),
            "looks": draw(st.lists(st.sampled_from([None, None, "none", "absolute-maximum", "frequency-maximum", "refused", "empty"]), min_size=k, max_size=k))}


@P.check(case_stack, 700)
def stacking(c, r):
    """A running stack of images is their count-weighted mean, in any order and grouping, also if it is looked at in between."""
    Empty = R.create_class("empty")
    T = R.create_class(c["name"])
    f, v = axes_of(c["imgs"][0])
    z = np.zeros((c["imgs"][0]["nv"], c["imgs"][0]["nf"]), dtype=complex)

    def group(i):
        """Image i, entered groups[i] times through a stack of its own."""
        p = power_of(c["imgs"][i])
        if c["groups"][i] == 1:
            return T(f, v, p), p, 1
        g = Empty(f, v, np.array(z))
        for q in range(c["groups"][i]):
            g.stack(T(f, v, p * (q + 1)))
        return g, p * (c["groups"][i] + 1) / 2, c["groups"][i]

    run = Empty(f, v, np.array(z))
    num, tot, size = z.copy(), 0, 0
    r.nt(len(c["imgs"]) > 1)
    r.label(f"{len(c['imgs'])} images", "uneven" if len(set(c["groups"])) > 1 else "even")
    for i, look in zip(c["perm"], c["looks"]):
        g, p, n = group(i)
        keep = np.array(g.power)
        run.stack(g)
        num, tot, size = num + p * n, tot + n, size + np.max(np.abs(p * n), axis=0)
        ensure_close(run.power, num / tot, "stack is not the count-weighted mean", rtol=1e-10)
        ensure(run.n == tot, "image count", got=run.n, want=tot)
        ensure(np.array_equal(keep, g.power) and g.n == n, "stacking modified the appended image")
        if look == "empty":                                  # an image of nothing counts for nothing
            run.stack(Empty(f, v, np.array(z)))
            ensure_close(run.power, num / tot, "an empty image changed the mean", rtol=1e-10)
            ensure(run.n == tot, "an empty image is counted", got=run.n, want=tot)
        elif look == "refused":
            with must_raise(AttributeError, msg="something that is not an image was stacked"):
                run.stack(np.ones((2, 2)))
        elif look is not None:
            if np.any(np.max(np.abs(num), axis=0) <= 1e-6 * size):      # images which cancel leave only rounding
                continue
            r.label("normalised in between")
            run.normalize(by=look)
            want = expected(num / tot, look)
            ensure(np.all(np.abs(run.power - want) <= 1e-9 * want.max(axis=0)), "normalised running stack", by=look, got=run.power, want=want)
            num = np.abs(num)
    before = np.array(run.power)
    with must_raise(AttributeError, msg="something that is not an image was stacked"):
        run.stack(object())
    ensure(np.array_equal(before, run.power) and run.n == tot, "a refused stack changed the running mean")
