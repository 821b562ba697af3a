import itertools
from lib import *
from props.c08_multifile import _write
from swprocess.register import AbstractRegistry, MaswWorkflowRegistry, WavefieldTransformRegistry
from swprocess.maswworkflows import TimeDomainMaswWorkflow
from swprocess.wavefieldtransforms import PhaseShift

P = Property("C31", rule="Histories of 1-12 registrations, re-registrations and look-ups on four registries (the package's two and two of the user's own) under names which are "
             "easily taken for one another; registered workflows and transforms of the user's own run on written files; non-trivial = a name is registered twice or in two registries.",
             assumptions=["a registry of the user's own brings its own table, as the package's do"])
NAMES = ["fk", "FK", "fk ", "f-k", "slantstack", "slant", "single", "Single", "time-domain", "time domain", "time-domain-xcorr", "1", 1, "", "empty", "é"]
_count = itertools.count()


@st.composite
def case_names(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(["put", "put", "get", "make", "fill"]), st.integers(0, 3), st.integers(0, len(NAMES) - 1), st.integers(0, 7)), min_size=1, max_size=12))
    return {"ops": [list(o) for o in ops], "few": draw(st.integers(1, len(NAMES)))}


@P.check(case_names, 250)
def names(c, r):
    """Every name stands for the class last registered under it in that registry; other names and registries are unaffected."""
    class A(AbstractRegistry):
        _register = {}

    class B(AbstractRegistry):
        _register = {}

    regs = [A, B, MaswWorkflowRegistry, WavefieldTransformRegistry]
    mark = f"user-{os.getpid()}-{next(_count)}-"          # the package's registries outlive the case
    builtin = {k: (regs[2 + k % 2], n, regs[2 + k % 2].create_class(n)) for k, n in enumerate(["single", "fk", "time-domain", "slantstack", "frequency-domain", "fdbf"])}
    model = [{}, {}, {}, {}]
    kept = []

    def check(g, k):
        name = k if g < 2 else f"{mark}{k!r}"
        if k in model[g]:
            ensure(regs[g].create_class(name) is model[g][k], "another class than the one registered", registry=g, name=name)
        else:
            with must_raise(KeyError, msg=f"unknown name {name!r} in registry {g}"):
                regs[g].create_class(name)
            with must_raise(KeyError, msg=f"unknown name {name!r} in registry {g}"):
                regs[g].create_instance(name)

    for how, g, k, arg in c["ops"]:
        key = NAMES[k % c["few"]]
        name = key if g < 2 else f"{mark}{key!r}"
        if how == "put":
            now = model[g].get(key)
            base = now if arg in (4, 5) and now is not None else object      # derived from the class which the name stands for now

            class Item(base):
                def __init__(self, *args, **kwargs):
                    self.given = (args, kwargs)
            r.nt(key in model[g] or any(key in m for m in model))
            if arg == 7 and kept:                            # a class registered before, here or elsewhere
                Item = kept[k % len(kept)]
            if arg == 6:                                     # the base of the class which the name stands for then

                class Sub(Item):
                    pass
                ensure(regs[g].register(name)(Sub) is Sub and regs[g].create_class(name) is Sub, "the derived class was not registered")
                kept.append(Sub)
            ensure(regs[g].register(name)(Item) is Item, "the class registered is not handed back")
            model[g][key] = Item
            kept.append(Item)
        elif how == "fill" and key in model[g]:
            args, kw = tuple([0, None, 2, "", (), False, -1, 8][:arg]), {f"k{q}": [None, 0, False, "", [], 1.5, None, 7][q] for q in range(arg)}
            if k % 3 == 0:
                kw["kind"] = model[g][key]           # the class itself, as any other value
                args += (model[g][key], name)
            one, two = regs[g].create_instance(name, *args, **kw), regs[g].create_instance(name, *args, **kw)
            ensure(type(one) is model[g][key] and one.given == (args, kw), "the instance created", given=one.given)
            ensure(one is not two, "each instance is a new one")
        else:
            check(g, key)
    for g in range(4):
        for key in NAMES[:c["few"]]:
            check(g, key)
    for reg, n, k in builtin.values():
        ensure(reg.create_class(n) is k, "a built-in entry changed", name=n)


@st.composite
def case_own(draw):
    return {"name": draw(st.sampled_from(["mine", "FK", "Fdbf", "fk2", "phase shift", "1"])), "wf": draw(st.sampled_from(["time-domain", "frequency-domain", "single", "own"])),
            "k": draw(st.integers(2, 4)), "n": draw(st.integers(24, 40)), "seed": draw(seeds), "factor": draw(st.integers(2, 5)), "nf": draw(st.integers(1, 2))}


@P.check(case_own, 60)
def own(c, r):
    """A transform or workflow of the user's own, once registered, is the one that runs; the built-in ones give what they gave."""
    dt = 0.002
    fnames = []
    for f in range(c["nf"]):
        fnames.append(f"s{f}.su")
        _write({"fmt": "SU", "sc": 1, "gx": [2 * i for i in range(c["k"])], "gy": [0] * c["k"], "sx": -3, "sy": 0, "nst": 1, "delay": 0, "dt": dt,
                "amps": [noise(c["n"], c["seed"] + 9 * f + i) for i in range(c["k"])]}, fnames[-1])
    name = f"{c['name']}-{os.getpid()}-{next(_count)}"
    ids = dict(fmin=1 / (c["n"] * dt), fmax=4 / (c["n"] * dt), vmin=100.0, vmax=400.0, nvel=3)
    wf = "time-domain" if c["wf"] == "own" else c["wf"]
    plain = settings_dict(workflow=wf, transform="phaseshift", **ids)
    maps = dict(map_x=lambda x: x, map_y=lambda y: y)
    before = Masw.run(fnames, plain, **maps)

    @WavefieldTransformRegistry.register(name)
    class Own(PhaseShift):
        @classmethod
        def from_array(cls, array, settings):
            out = super().from_array(array, settings)
            out.power = np.asarray(out.power) * c["factor"]
            return out

    got = []

    @MaswWorkflowRegistry.register(name)
    class OwnFlow(TimeDomainMaswWorkflow):
        def run(self):
            got.append((self.fnames, self.settings))
            return super().run()

    r.nt(True)
    r.label(c["wf"])
    s = settings_dict(workflow=name if c["wf"] == "own" else wf, transform=name, **ids)
    mine = Masw.run(fnames, s, **maps)
    ensure_close(mine.power, np.asarray(before.power) * c["factor"], "image of the user's own transform", rtol=1e-9)
    ensure(len(got) == (c["wf"] == "own"), "the user's own workflow runs when it is asked for", runs=len(got))
    if got:
        ensure(list(got[0][0]) == fnames and got[0][1] == s, "files and settings handed to the workflow", got=got[0])
    again = Masw.run(fnames, plain, **maps)
    ensure_close(again.power, before.power, "the built-in transform changed", rtol=1e-12)
    with must_raise(KeyError, msg="unknown transform"):
        Masw.run(fnames, settings_dict(workflow=wf, transform=name + "x", **ids), **maps)
    with must_raise(KeyError, msg="unknown workflow"):
        Masw.run(fnames, settings_dict(workflow=name + "x", transform=name, **ids), **maps)
