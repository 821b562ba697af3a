import props.c16_json as c16
import props.c20_maxfiles as c20
from lib import *

P = Property("C21", rule="Histories of 1-10 additions and combinations (new sets, duplicates, equal text from another type, foreign objects) on collections, and 2-4 result files of "
             "different components read together in any order; non-trivial = at least one accepted and one refused request, or files of different components.",
             assumptions=["a file list is a list of names"])
IDS = ["a", "b", "c", "d", "0", "10", "é"]
FAMILIES = [IDS, ["a", "A", "ab", "a b", "b"], ["1", "01", "1.0", "10", " 1"], ["line", "line 7", "7", "7 line", "Line 7", "line  7"], ["", "None", "a", "a,b", "b", "a;b"]]


class Like:
    """Looks like a peak set, but is not one."""
    identifier = "z"
    frequency = velocity = np.array([1.0])


FOREIGN = {"none": None, "text": "a", "number": 3, "dict": {"frequency": [1], "velocity": [2]}, "list": [], "lookalike": Like()}


@st.composite
def case_hist(draw):
    family = st.sampled_from(draw(st.sampled_from(FAMILIES)))
    pool = [draw(c16.st_peaks(family)) for _ in range(draw(st.integers(2, 6)))]
    ops = draw(st.lists(st.one_of(st.tuples(st.just("append"), st.integers(0, 5)), st.tuples(st.just("append"), st.integers(0, 5)), st.tuples(st.just("foreign"), st.sampled_from(sorted(FOREIGN))),
                                  st.tuples(st.just("combine"), st.lists(st.integers(0, 5), min_size=1, max_size=3)),
                                  st.tuples(st.just("from_peaks"), st.lists(st.integers(0, 5), min_size=1, max_size=4)),
                                  st.tuples(st.just("reject"), st.sampled_from([[5.0, None], [None, 50.0], [20.0, 300.0]]))), min_size=1, max_size=10))
    return {"pool": pool, "ops": [list(o) for o in ops], "first": draw(st.integers(0, 5))}


def view(suite):
    return [(p.identifier, p.frequency.tolist(), p.velocity.tolist()) for p in suite]


@P.check(case_hist, 700)
def membership(c, r):
    """The collection behaves as an ordered list with unique identifiers; refusals leave it as it was."""
    pool = [c16.build(q) for q in c["pool"]]

    def pick(k):
        return pool[k % len(pool)]

    suite = PeaksSuite(pick(c["first"]))
    model = [pick(c["first"])]
    good = bad = 0
    for op, arg in c["ops"]:
        before = view(suite)
        if op == "append":
            p = pick(arg)
            if p.identifier in [q.identifier for q in model]:
                bad += 1
                with must_raise(KeyError, msg="a second set of the same identifier"):
                    suite.append(p)
                ensure(view(suite) == before, "a refused addition changed the collection")
            else:
                good += 1
                suite.append(p)
                model.append(p)
        elif op == "foreign":
            bad += 1
            with must_raise(TypeError, msg=f"added a {arg}"):
                suite.append(FOREIGN[arg])
            with must_raise(TypeError, msg=f"started from a {arg}"):
                PeaksSuite(FOREIGN[arg])
            with must_raise(TypeError, msg=f"from a list with a {arg}"):
                PeaksSuite.from_peaks([pick(0), FOREIGN[arg]])
            ensure(view(suite) == before, "a refused addition changed the collection")
        elif op == "reject":
            suite.reject_limits_outside("frequency", arg)
        else:
            members = [pick(k) for k in arg]
            ids = [p.identifier for p in members]
            if op == "from_peaks":
                for k, p in enumerate(members):
                    p.to_json(f"m{k}.json")
                names = [f"m{k}.json" for k in range(len(members))]
                if len(set(ids)) < len(ids):
                    bad += 1
                    with must_raise(KeyError, msg="files with two sets of one identifier"):
                        PeaksSuite.from_json(names)
                    with must_raise(KeyError, msg="a list with two sets of one identifier"):
                        PeaksSuite.from_peaks(members)
                else:
                    s2 = PeaksSuite.from_peaks(members)
                    ensure([p.identifier for p in s2] == ids, "order of the list", got=list(s2.ids))
                    ensure([p.identifier for p in PeaksSuite.from_json(names)] == ids, "order of the files", want=ids)
            else:
                singles = [suite] + [PeaksSuite(p) for p in members]
                allids = [p.identifier for p in model] + ids
                if len(set(allids)) < len(allids):
                    bad += 1
                    with must_raise(KeyError, msg="combining collections sharing an identifier"):
                        PeaksSuite.from_peakssuite(singles)
                else:
                    good += 1
                    merged = PeaksSuite.from_peakssuite(singles)
                    ensure(all(p is q for p, q in zip(merged, model + members)) or view(merged) == view(model + members), "combined sets")
                    ensure([p.identifier for p in merged] == allids, "order of combined sets", got=[p.identifier for p in merged])
                    ensure(PeaksSuite.from_peakssuite(merged) == merged, "combining a single collection changes it")
                ensure(view(suite) == before and all(len(s) == 1 for s in singles[1:]), "combining changed a collection")
        ensure(len(suite) == len(model) and list(suite.ids) == [p.identifier for p in model], "identifiers", got=suite.ids)
        ensure(view(suite) == view(model), "members", got=view(suite), want=view(model))
        ids = [p.identifier for p in model]
        ensure([(p.identifier, q.identifier) for p in suite for q in suite] == [(p, q) for p in ids for q in ids], "nested loops over the collection")
        one, two = iter(suite), iter(suite)
        ensure([next(one).identifier, next(two).identifier] == ids[:1] * 2, "two loops over the collection")
        for k in range(len(model)):
            ensure(suite[k].identifier == suite[k - len(model)].identifier == model[k].identifier, "indexing")
        for part in (slice(None, 2), slice(1, None), slice(None, None, -1)):
            ensure([p.identifier for p in suite[part]] == ids[part], "slicing", part=str(part))
        with must_raise(IndexError, msg="a member past the end"):
            suite[len(model)]
    r.nt(good and bad)
    r.label("accepted" if good else "none accepted", "refused" if bad else "none refused")


@P.check(lambda: st.fixed_dictionaries({"sizes": st.lists(st.integers(1, 6), min_size=1, max_size=3), "big": st.sampled_from([64, 101, 130, 260, 1001]), "at": st.integers(0, 3), "seed": seeds}), 40)
def many(c, r):
    """A collection of as many sets as there are time windows in a day of noise keeps them all, in order."""
    sizes = list(c["sizes"])
    sizes.insert(min(c["at"], len(sizes)), c["big"])
    v = np.round(300 + 100 * noise(sum(sizes), c["seed"]), 2)
    sets = [[Peaks([5.0, 6.0], [v[sum(sizes[:i]) + k], 200.0], identifier=f"{i}/{k}") for k in range(n)] for i, n in enumerate(sizes)]
    flat = [p for q in sets for p in q]
    want = [(p.identifier, [5.0, 6.0], p.velocity.tolist()) for p in flat]
    r.nt()
    suites = [PeaksSuite.from_peaks(q) for q in sets]
    whole = PeaksSuite.from_peakssuite(suites)
    ensure(view(whole) == want and len(whole) == len(want), "combined sets")
    ensure([len(s) for s in suites] == sizes, "combining changed a collection")
    ensure(whole == PeaksSuite.from_peaks(flat), "the collection of all the sets")
    whole.to_json("many.json")
    ensure(view(PeaksSuite.from_json("many.json")) == want, "read back from a file")
    with must_raise(KeyError, msg="a second set of the same identifier"):
        whole.append(Peaks([1.0], [2.0], identifier=flat[len(flat) // 2].identifier))
    ensure(view(whole) == want, "a refused addition changed the collection")
    whole.reject_limits_outside("velocity", [300.0, None])
    ensure(view(whole) == [(i, f[:1] if w[0] >= 300 else [], w[:1] if w[0] >= 300 else []) for i, f, w in want], "rejection from every set")


@st.composite
def case_files(draw):
    files = []
    for k in range(draw(st.integers(2, 4))):
        times = [f"2017060922{k}{m}00.5" for m in range(draw(st.integers(1, 3)))]
        if draw(st.integers(0, 5)) == 0 and k:
            times = [q[0] for q in files[0]["rows"]][:1] or times
        files.append(draw(c20.st_maxfile(waves=draw(st.sampled_from(["vertical", "3c", "3c"])), times=times)))
    return {"files": files, "perm": list(draw(st.permutations(range(len(files))))), "ask": draw(st.sampled_from(["rayleigh", "rayleigh", "love"]))}


@P.check(case_files, 160)
def files(c, r):
    """Reading several result files gives the sets of each in order, whatever the other files hold."""
    use = [q for q in c["files"] if c20.wanted(q, c["ask"])]
    if not use:
        return
    for k, q in enumerate(use):
        c20.write(q, f"f{k}.max")
    for perm in (range(len(use)), [k for k in c["perm"] if k < len(use)]):
        want = [(i, rows) for k in perm for i, rows in c20.wanted(use[k], c["ask"]).items()]
        names = [f"f{k}.max" for k in perm]
        kinds = {q["kind"] for q in use}
        if len({i for i, _ in want}) < len(want):
            r.label("two files with one identifier")
            with must_raise(KeyError, msg="two files holding a set of one identifier"):
                PeaksSuite.from_max(names, wavetype=c["ask"])
            continue
        r.nt(len(kinds) > 1)
        r.label(f"{len(use)} files", "mixed" if len(kinds) > 1 else "one component")
        s = PeaksSuite.from_max(names, wavetype=c["ask"])
        ensure([p.identifier for p in s] == [i for i, _ in want], "sets of all files", got=[p.identifier for p in s], want=[i for i, _ in want])
        for p, (i, rows) in zip(s, want):
            c20.ensure_set(p, i, rows, "several files")
        one = PeaksSuite.from_peakssuite([PeaksSuite.from_max(n, wavetype=c["ask"]) for n in names])
        ensure([p.identifier for p in one] == [p.identifier for p in s], "one by one", got=[p.identifier for p in one])
        # a collection written to a single JSON, or one JSON per set, is the same collection
        PeaksSuite.from_peaks([Peaks([1.0, 2.0], [100.0, 90.0], identifier=q) for q in ("left over", "older")]).to_json("all.json")   # replaced by what is written next
        s.to_json("all.json")
        for k, p in enumerate(s):
            p.to_json(f"j{k}.json")
        ensure(PeaksSuite.from_json("all.json") == PeaksSuite.from_json([f"j{k}.json" for k in range(len(s))]), "one file per set")
