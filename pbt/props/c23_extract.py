import datetime
import glob

import obspy

from lib import *

P = Property("C23", rule="Request tables of 1-4 rows (spans of 0 s to 5 h across hours, days, months and years, stations 1-120, shared folders) against hourly files written for "
             "the case (1-3 channels, five sampling rates, split, gapped or overlapping hours, records starting late); non-trivial = a span crosses an hour and starts or ends inside one.",
             assumptions=["span limits fall on samples", "where hourly files overlap either recording counts", "samples inside a recording gap are not specified"])
UTC = datetime.timezone.utc
STARTS = [datetime.datetime(2020, 12, 31, 22), datetime.datetime(2020, 2, 28, 23), datetime.datetime(2021, 2, 28, 22), datetime.datetime(2019, 9, 30, 21), datetime.datetime(2022, 6, 9, 9),
          datetime.datetime(2022, 10, 10, 10), datetime.datetime(1999, 12, 31, 23), datetime.datetime(2016, 1, 1, 0)]
RATES = [1.0, 0.5, 2.0, 0.1, 0.2]
HEADER = "folder name,array name,station number,start year,start month,start date,start hour,start minute,start second,end year,end month,end date,end hour,end minute,end second,notes"
T0 = datetime.datetime(1999, 1, 1)


@st.composite
def case_extract(draw):
    rate = draw(st.sampled_from(RATES))
    step = max(1, int(round(1 / rate)))
    rows = []
    base = draw(st.integers(0, len(STARTS) - 1))
    for k in range(draw(st.integers(1, 4))):
        start = draw(st.integers(0, 3))
        span = draw(st.sampled_from([0, 1800, 3600, 7200, 3000, 10800]))
        off = draw(st.sampled_from([0, 0, 1800, 600, 3590, 1230]))
        end = draw(st.sampled_from(["free", "free", "hour", "day"]))   # many requests end on the hour or at midnight
        if end != "free":
            last = 3600 * draw(st.integers(1, 3)) + 3600 * start
            if end == "day":
                last = 86400 - 3600 * STARTS[base].hour
            span = draw(st.sampled_from([0, 600, 1830, 3600, 5400, 9000]))
            rows.append({"folder": "f2", "array": f"e{k}", "stn": draw(st.sampled_from([1, 10, 120])), "start": max(0, last - span), "span": min(span, last)})
            continue
        rows.append({"folder": draw(st.sampled_from(["f0", "f1", "ex array"])), "array": draw(st.sampled_from(["a", "b", "01", "c50", "c50", "1.5"])) + draw(st.sampled_from(["", "", str(k)])), "stn": draw(st.sampled_from([1, 7, 10, 12, 99, 100, 120])),
                     "start": 3600 * start + off, "span": span + step * draw(st.integers(0, 50))})
    rows = [q for k, q in enumerate(rows) if (q["folder"], q["array"], q["stn"]) not in [(p["folder"], p["array"], p["stn"]) for p in rows[:k]]]   # each request has its own file
    if draw(st.integers(0, 9)) == 9:                         # a request of more than a day
        rate = 0.1
        rows = rows[:1]
        rows[0].update(start=rows[0]["start"] // 10 * 10, span=3600 * draw(st.integers(20, 50)) + draw(st.sampled_from([0, 0, 1800, 10])))
    return {"base": base, "rate": rate, "rows": rows, "nch": draw(st.integers(1, 3)), "dtype": draw(st.sampled_from(["int32", "float32", "float64"])),
            "ext": draw(st.sampled_from(["mseed", "miniseed"])), "net": draw(st.sampled_from(["NW", "UT", "X"])), "notes": draw(st.booleans()), "dirs": draw(st.sampled_from(["default", "path", "str"])),
            "exists": draw(st.booleans()), "cut": [[draw(st.sampled_from([0, 0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20, 40])), draw(st.sampled_from(["split", "gap", "late", "early", "over", "over"])), draw(st.integers(1, 3000)), draw(st.integers(1, 200))]
                                                   for _ in range(draw(st.integers(0, 4)))]}


def values(c, stn, ch, t, n):
    k = int(round((t - T0).total_seconds() * c["rate"])) + np.arange(n, dtype=np.int64)
    return (((k * 2654435761 + stn * 40503 + ch * 977) % 16777259) - 8388600).astype(c["dtype"])


def hour_of(t):
    return t.replace(minute=0, second=0)


def write_hour(c, stn, hour, cut, where):
    """Write the hourly file; returns {channel: set of sample times in s since T0 that exist}."""
    n = int(round(3600 * c["rate"]))
    have = {}
    stream = obspy.Stream()
    for ch in range(c["nch"]):
        idx = np.arange(n)
        if cut:
            kind, at, width = cut
            a = min(max(1, int(at * c["rate"])), n - 2)
            b = min(a + max(1, int(width * c["rate"])), n - 1)
            parts = {"split": [idx[:a], idx[a:]], "gap": [idx[:a], idx[b:]], "late": [idx[a:]], "early": [idx[:a]]}.get(kind)
            if kind == "over":                               # the logger ran on into the next hour, with readings of its own
                idx = np.arange(n + max(1, int(width * c["rate"])))
                parts = [idx]
        else:
            parts = [idx]
        for p in parts:
            t = hour + datetime.timedelta(seconds=float(p[0] / c["rate"]))
            tr = obspy.Trace(values(c, stn, ch, t, len(p)))
            tr.data[p >= n] += 1
            tr.stats.update({"network": c["net"], "station": f"S{stn}", "channel": "EH" + "ZNE"[ch], "sampling_rate": c["rate"], "starttime": obspy.UTCDateTime(t)})
            stream.append(tr)
            base = int(round((hour - T0).total_seconds() * c["rate"]))
            have.setdefault(ch, set()).update((base + p).tolist())
    stream.write(os.path.join(where, f"{c['net']}.STN{stn:02d}_{hour:%Y%m%d}_{hour:%H}0000.{c['ext']}"), format="MSEED")
    return have


def span_of(c, q):
    b = STARTS[c["base"]]
    step = 1 / c["rate"]
    s = b + datetime.timedelta(seconds=float(round(q["start"] / step) * step))
    return s, s + datetime.timedelta(seconds=float(max(round(q["span"] / step) * step, 0)))


def line(c, q, s, e):
    v = [q["folder"], q["array"], q["stn"], s.year, s.month, s.day, s.hour, s.minute, s.second, e.year, e.month, e.day, e.hour, e.minute, e.second, "a note" if c["notes"] else ""]
    return ",".join(map(str, v))


@P.check(case_extract, 220)
def extract(c, r):
    """One file per request with exactly the recorded samples in the span, both ends included."""
    from swprocess import utils
    data, out = ("data", "out") if c["dirs"] != "default" else (".", ".")
    for d in (data, out):
        os.makedirs(d, exist_ok=True)
    have = {}
    cuts = {}
    for q in c["rows"]:
        s, e = span_of(c, q)
        h = hour_of(s)
        while h <= hour_of(e):
            if (q["stn"], h) not in have:
                k = len(have)
                cut = next(([kind, at, w] for i, kind, at, w in c["cut"] if i == k), None)
                have[q["stn"], h] = write_hour(c, q["stn"], h, cut, data)
                cuts[q["stn"], h] = cut
            h += datetime.timedelta(hours=1)
    rows = []
    for q in c["rows"]:
        s, e = span_of(c, q)
        # a span without any recorded sample is not part of the claim
        lo, hi = (int(round((t - T0).total_seconds() * c["rate"])) for t in (s, e))
        got = set().union(*[v.get(0, set()) for (stn, h), v in have.items() if stn == q["stn"] and hour_of(s) <= h <= e])
        if any(lo <= k <= hi for k in got):
            rows.append((q, s, e, lo, hi))
    if not rows:
        return
    with open("req.csv", "w") as f:
        f.write("\n".join([HEADER] + [line(c, q, s, e) for q, s, e, _, _ in rows]) + "\n")
    if c["exists"]:
        os.makedirs(os.path.join(out, rows[0][0]["folder"]), exist_ok=True)
    before = {f: open(f, "rb").read() for f in glob.glob(os.path.join(data, f"*.{c['ext']}"))}
    kw = {} if c["dirs"] == "default" else {"data_dir": data, "output_dir": out + "/"} if c["dirs"] == "str" else {"data_dir": __import__("pathlib").Path(data), "output_dir": __import__("pathlib").Path(out)}
    if c["ext"] != "mseed":
        kw["extension"] = c["ext"]
    utils.extract_mseed("req.csv", c["net"], **kw)
    ensure(all(open(f, "rb").read() == v for f, v in before.items()), "an input file was changed")
    want_files = sorted({os.path.join(out, q["folder"], f"{c['net']}.STN{q['stn']:02d}.{q['array']}.{c['ext']}") for q, *_ in rows})
    got_files = sorted(glob.glob(os.path.join(out, "*", "*")))
    got_files = [f for f in got_files if os.path.isfile(f) and os.path.dirname(f) != os.path.join(out, "data")]
    ensure(got_files == want_files, "files written", got=got_files, want=want_files)
    for q, s, e, lo, hi in rows:
        r.nt(hour_of(s) != hour_of(e) and (s != hour_of(s) or e != hour_of(e)))
        stream = obspy.read(os.path.join(out, q["folder"], f"{c['net']}.STN{q['stn']:02d}.{q['array']}.{c['ext']}"))
        hours = []
        h = hour_of(s)
        while h <= hour_of(e):
            hours.append(h)
            h += datetime.timedelta(hours=1)
        used = [cuts[q["stn"], h] for h in hours]
        r.label("whole" if not any(used) else "interrupted", f"{len(hours)} hours", "one sample" if lo == hi else "span", "crosses a day" if s.date() != e.date() else "one day")
        ensure(sorted(t.stats.channel for t in stream) == sorted("EH" + "ZNE"[k] for k in range(c["nch"])), "channels", got=[t.id for t in stream])
        for tr in stream:
            ch = "ZNE".index(tr.stats.channel[2])
            ensure(tr.stats.network == c["net"] and tr.stats.station == f"S{q['stn']}" and abs(tr.stats.sampling_rate - c["rate"]) < 1e-9, "header", got=str(tr.stats))
            everything = sorted({k for h in hours for k in have[q["stn"], h][ch]})
            recorded = [k for k in everything if lo <= k <= hi]
            a, b = max(lo, everything[0]), min(hi, everything[-1])   # a gap inside the record keeps its place
            first = int(round((tr.stats.starttime - obspy.UTCDateTime(T0)) * c["rate"]))
            ensure(first == a, "first sample", got=str(tr.stats.starttime), want=a, span=(str(s), str(e)))
            ensure(first + tr.stats.npts - 1 == b, "last sample", got=first + tr.stats.npts - 1, want=b, span=(str(s), str(e)))
            pos = np.array(recorded) - first
            want = values(c, q["stn"], ch, T0 + datetime.timedelta(seconds=first / c["rate"]), tr.stats.npts)[pos]
            ensure(tr.data.dtype.kind == np.dtype(c["dtype"]).kind, "sample type", got=tr.data.dtype)
            last = [int(round((h + datetime.timedelta(hours=1) - T0).total_seconds() * c["rate"])) for h in hours]
            own = np.array([any(k in have[q["stn"], h][ch] for h, end in zip(hours, last) if k < end) for k in recorded])
            tail = np.array([any(k in have[q["stn"], h][ch] for h, end in zip(hours, last) if k >= end) for k in recorded])
            if tail.any():
                r.label("overlap")
            data = np.asarray(tr.data)[pos]
            ensure(np.all((data == want) & own | (data == want + 1) & tail), "samples", span=(str(s), str(e)), got=tr.data[:5], want=want[:5])


@st.composite
def case_bad(draw):
    return {"base": draw(st.integers(0, len(STARTS) - 1)), "start": draw(st.integers(0, 7200)), "back": draw(st.sampled_from([1, 60, 600, 3600, 7200, 86400])), "kind": draw(st.sampled_from(["back", "back", "back", "binary", "missing", "text"])),
            "first": draw(st.booleans()), "rate": 1.0, "nch": 1, "dtype": "int32", "ext": "mseed", "net": "NW", "notes": True, "junk": draw(st.binary(min_size=1, max_size=30))}


@P.check(case_bad, 60)
def refuse(c, r):
    """Spans that end before they start and unreadable tables are refused; nothing is written for them."""
    from swprocess import utils
    q = {"folder": "f", "array": "a", "stn": 1}
    s = STARTS[c["base"]] + datetime.timedelta(seconds=c["start"])
    e = s - datetime.timedelta(seconds=c["back"])
    r.label(c["kind"], "same hour" if hour_of(s) == hour_of(e) else "other hour")
    r.nt(c["start"] % 3600 != 0)
    os.mkdir("out")
    if c["kind"] == "back":
        h = hour_of(e)
        while h <= hour_of(s):
            write_hour(c, 1, h, None, ".")
            h += datetime.timedelta(hours=1)
        with open("req.csv", "w") as f:
            f.write(HEADER + "\n" + line(c, q, s, e) + "\n")
        with must_raise(ValueError, msg=f"span from {s} to {e}"):
            utils.extract_mseed("req.csv", "NW", output_dir="out")
    else:
        if c["kind"] == "binary":
            with open("req.csv", "wb") as f:
                f.write(b"PK\x03\x04\x00\xff\xfe" + c["junk"])
        elif c["kind"] == "text":
            with open("req.csv", "w") as f:
                f.write(HEADER + "\n" + line(c, q, s, s).replace(",1,", ",one,", 1) + "\n")
        with must_raise(NotImplementedError, msg="unreadable table"):
            utils.extract_mseed("req.csv", "NW", output_dir="out")
    ensure(not glob.glob("out/*/*"), "a refused request wrote a file")
