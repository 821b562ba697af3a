import copy
import json

from lib import *
from props.c08_multifile import write_file
from props.c14_workflows import case_flow, lines_of, settings_for

P = Property("C29", rule="Every settings keyword independently left out or given (as Python or numpy numbers), pairs of dictionaries one of which is altered at random places, and the workflows of C14 run twice "
             "from a dictionary and once from its JSON text; non-trivial = at least five keywords are given and at least three left out, or a workflow with at least two pre-processing steps.",
             assumptions=["numbers are finite except for the largest offset"])
num = st.integers(-4000, 4000).map(lambda k: k / 8)
pos = st.one_of(st.integers(1, 4000).map(lambda k: k / 8), st.sampled_from([0, 0.0, 1, 10]))
# keyword -> (place, default, values)
WHERE = {
    "workflow": (("workflow",), "time-domain", st.sampled_from(["time-domain", "frequency-domain", "single", "time-domain-xcorr"])),
    "trim": (("pre-processing", "trim", "apply"), False, st.booleans()),
    "trim_begin": (("pre-processing", "trim", "begin"), 0.0, num),
    "trim_end": (("pre-processing", "trim", "end"), 1.0, num),
    "mute": (("pre-processing", "mute", "apply"), False, st.booleans()),
    "method": (("pre-processing", "mute", "method"), "interactive", st.sampled_from(["interactive", "predefined"])),
    "window_kwargs": (("pre-processing", "mute", "window_kwargs"), {}, st.one_of(st.none(), st.just({}), pos.map(lambda a: {"alpha": a}), st.tuples(pos, st.booleans()).map(lambda a: {"alpha": a[0], "sym": a[1]}))),
    "pad": (("pre-processing", "pad", "apply"), False, st.booleans()),
    "df": (("pre-processing", "pad", "df"), 1.0, pos),
    "min_offset": (("pre-processing", "offsets", "min"), 0.0, st.one_of(pos, num)),
    "max_offset": (("pre-processing", "offsets", "max"), float("inf"), pos),
    "transform": (("processing", "transform"), "fdbf", st.sampled_from(["fdbf", "fk", "phaseshift", "slantstack"])),
    "fmin": (("processing", "fmin"), 5.0, pos),
    "fmax": (("processing", "fmax"), 100.0, pos),
    "vmin": (("processing", "vmin"), 100.0, pos),
    "vmax": (("processing", "vmax"), 1000.0, pos),
    "nvel": (("processing", "nvel"), 200, st.integers(1, 2000)),
    "vspace": (("processing", "vspace"), "linear", st.sampled_from(["linear", "log", "lin", "logarithmic"])),
    "weighting": (("processing", "fdbf-specific", "weighting"), "sqrt", st.sampled_from(["sqrt", "invamp", "none"])),
    "steering": (("processing", "fdbf-specific", "steering"), "cylindrical", st.sampled_from(["cylindrical", "plane"])),
    "snr": (("signal-to-noise", "perform"), False, st.booleans()),
    "noise_begin": (("signal-to-noise", "noise", "begin"), -0.5, num),
    "noise_end": (("signal-to-noise", "noise", "end"), 0.0, num),
    "signal_begin": (("signal-to-noise", "signal", "begin"), 0.0, num),
    "signal_end": (("signal-to-noise", "signal", "end"), 0.5, num),
    "pad_snr": (("signal-to-noise", "pad", "apply"), True, st.booleans()),
    "df_snr": (("signal-to-noise", "pad", "df"), 1.0, pos),
}


def get(d, place):
    for k in place:
        d = d[k]
    return d


def leaves(d, at=()):
    for k, v in d.items():
        if isinstance(v, dict) and at + (k,) != ("pre-processing", "mute", "window_kwargs"):
            yield from leaves(v, at + (k,))
        else:
            yield at + (k,), v


@st.composite
def case_kw(draw):
    names = sorted(draw(st.sets(st.sampled_from(sorted(WHERE)), max_size=len(WHERE))))
    return {"kw": {k: draw(WHERE[k][2]) for k in names}, "numpy": draw(st.booleans())}


def as_numpy(v):
    return np.bool_(v) if isinstance(v, bool) else np.int64(v) if isinstance(v, int) else np.float64(v) if isinstance(v, float) else v


def call(c):
    return Masw.create_settings_dict(**{k: as_numpy(v) if c["numpy"] else copy.deepcopy(v) for k, v in c["kw"].items()})


def ensure_faithful(d, kw):
    got = dict(leaves(d))
    want = {place: kw.get(k, dflt) for k, (place, dflt, _) in WHERE.items()}
    want[WHERE["window_kwargs"][0]] = want[WHERE["window_kwargs"][0]] or {}
    for place, v in want.items():
        ensure(place in got, "missing setting", place=place)
        ensure(got[place] == v and isinstance(got[place], bool) == isinstance(v, bool), "setting", place=place, got=got[place], want=v)
        if isinstance(v, dict):
            ensure({k: type(q) for k, q in got[place].items()} == {k: type(q) for k, q in v.items()}, "type of a window setting", got=got[place], want=v)
    for place in got:
        ensure(place in want or place[:2] == ("pre-processing", "mute"), "undocumented setting", place=place)


@P.check(case_kw, 1200)
def faithful(c, r):
    """Every value is in its place and the documented default everywhere else; the dictionary survives a JSON file."""
    r.nt(5 <= len(c["kw"]) <= len(WHERE) - 3)
    r.label("numpy" if c["numpy"] else "python")
    d = call(c)
    ensure_faithful(d, c["kw"])
    with open("settings.json", "w") as f:
        json.dump(d, f)
    with open("settings.json") as f:
        ensure(json.load(f) == d, "settings read back from a file differ")


@st.composite
def case_two(draw):
    a, b = draw(case_kw()), draw(case_kw())
    return {"a": a, "b": b, "alter": draw(st.lists(st.integers(0, 60), min_size=1, max_size=4)), "window": draw(st.booleans())}


@P.check(case_two, 500)
def fresh(c, r):
    """Altering one dictionary, or the values it was made from, changes no other."""
    window = {"alpha": 0.3}
    kw = dict(c["a"]["kw"])
    if c["window"]:
        kw["window_kwargs"] = window
    first = Masw.create_settings_dict(**kw)
    second = Masw.create_settings_dict(**kw)
    r.nt(len(kw) >= 5)
    places = [p for p, _ in leaves(first)]
    for k in c["alter"]:
        p = places[k % len(places)]
        d = first
        for q in p[:-1]:
            d = d[q]
        d[p[-1]] = "changed"
        d["new"] = "changed"
    if isinstance(first["pre-processing"]["mute"]["window_kwargs"], dict):
        first["pre-processing"]["mute"]["window_kwargs"]["alpha"] = "changed"
    ensure(window == {"alpha": 0.3}, "altering the settings altered the window given")
    window["alpha"] = 0.9
    if c["window"]:
        kw["window_kwargs"] = {"alpha": 0.3}
    ensure_faithful(second, kw)
    ensure_faithful(call(c["b"]), c["b"]["kw"])


@P.check(case_flow, 110)
def runs(c, r):
    """Running a workflow leaves its settings as they were; the same settings, or their JSON text, give the same image again."""
    nf = len(c["orders"])
    names = [f"shot{f}.dat" for f in range(nf)]
    for f in range(nf):
        write_file(c, f, names[f])
    s = settings_for(c)
    snap = copy.deepcopy(s)
    text = json.dumps(s)
    (ax, bx), (ay, by) = c["mx"], c["my"]
    maps = dict(map_x=lambda x: ax * x + bx, map_y=lambda y: ay * y + by)
    r.nt(sum(map(bool, (c["trim"], c["mute"], c["pad"], c["off"], c["snr"]))) > 1)
    r.label(c["wf"], c["transform"])
    images = []
    for q in (s, s, json.loads(text)):
        try:
            with scripted_user(lines_of(c)):
                images.append(Masw.run(list(names), q, **maps))
        except ValueError as e:
            images.append(None)
            r.label("refused: " + str(e)[:20])
        ensure(s == snap, "the workflow altered its settings", before=snap, after=s)
    ensure(len({i is None for i in images}) == 1, "accepted once and refused once", images=images)
    if images[0] is None:
        return
    for i in images[1:]:
        for a in ("frequencies", "velocities", "power"):
            ensure(np.array_equal(getattr(i, a), getattr(images[0], a), equal_nan=True), f"{a} differ between equal runs")
    w0, a0 = images[0], images[0].power.copy()
    images[1].normalize("absolute-maximum")
    images[1].array.zero_pad(1 / (200 * c["dt"]))
    ensure(np.array_equal(w0.power, a0, equal_nan=True), "images of separate runs share their power")
    ensure(w0.array[0].nsamples == images[2].array[0].nsamples, "images of separate runs share their array")
