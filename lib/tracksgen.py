"""Files of tracks in many layouts, with what their rows mean."""
import json
from datetime import datetime, timedelta, timezone
BASE = datetime(2020, 2, 28, 23, 59, 58, tzinfo=timezone.utc)
WORDS = ["a", "b", "c", "7", "07", "a_b", "A", "x y", "a;b", "a,b", "é", "track-1", "0", "1", "2"]


def fmt_time(rng, kind, ms):
    """the time BASE + ms in a format; returns list of column texts"""
    if kind == "iso":                       # several zones within one file
        z = rng.choice([0, 0, 60, 120, -330])
        d = BASE + timedelta(milliseconds=ms + z * 60000)
        frac = f".{ms % 1000:03d}" if ms % 1000 or rng.random() < .5 else ""
        return [d.strftime("%Y-%m-%dT%H:%M:%S") + frac + ("-" if z < 0 else "+") + f"{abs(z) // 60:02d}:{abs(z) % 60:02d}"]
    d = BASE + timedelta(milliseconds=ms)
    frac = f".{ms % 1000:03d}"
    if kind == "plain":
        return [d.strftime("%Y-%m-%d %H:%M:%S") + frac]
    if kind == "german":
        return [d.strftime("%d.%m.%Y"), d.strftime("%H:%M:%S") + frac]
    if kind == "zulu":
        return [d.strftime("%Y-%m-%dT%H:%M:%S") + frac + "Z"]
    if kind == "unix":
        return [str(int(BASE.timestamp()) * 1000 + ms)]
    if kind == "junk":
        return [rng.choice(["n/a", "yesterday", "1.5", "-3", "12:00"])]
    return []


FORMATS = {"iso": "%FT%T%Oz", "plain": "%F~%T", "german": "%d.%m.%Y_%T", "zulu": "%FT%TZ", "unix": "%FT%T%Oz", "junk": "%FT%T%Oz", "none": "%FT%T%Oz"}


def num(v, rng):
    return str(v) if rng.random() < .7 else rng.choice([f"{v}.0", f"{v}.", f"{v}.000"]) if rng.random() < .8 else f"{v}e0"


def wkt(rng, k, ls, ec=True):
    sp = rng.choice(["", " "])
    pt = lambda p: f"{num(p[0], rng)} {num(p[1], rng)}"
    ln = lambda l: "(" + rng.choice([",", ", "]).join(pt(p) for p in l) + ")"
    s = {"P": lambda: f"POINT{sp}({pt(ls[0][0])})",
         "L": lambda: "MULTILINESTRING EMPTY" if not ls else rng.choice(["LINESTRING EMPTY", "LINESTRING()"] + ["GEOMETRYCOLLECTION EMPTY"] * ec) if ls == [[]] else f"LINESTRING{sp}{ln(ls[0])}" if len(ls) == 1 else f"MULTILINESTRING{sp}({','.join(ln(l) for l in ls)})",
         "X": lambda: rng.choice(["POLYGON((0 0,1 1,1 0,0 0))", "nothing", "MULTIPOINT(1 1,2 2)"])}[k]()
    return s if rng.random() < .6 else s.lower()


def point(rng):
    return [rng.randint(-9, 9), rng.randint(-9, 9)]


def lines(rng):
    if rng.random() < .06:
        return rng.choice([[], [[]]])
    if rng.random() < .6:
        return [[point(rng) for _ in range(rng.randint(2, 5))]]
    return [[point(rng) for _ in range(rng.randint(2, 4))] for _ in range(rng.randint(2, 3))]


def word(s):
    return "-" if s == "" else s.replace(" ", "~")


def csv(rng, rows=None, grouped=None):
    """one import; rows: from the model [{f,id,t,k,ls}] or None"""
    model = rows is not None
    wk = any(r["k"] != "P" for r in rows) if model else rng.random() < .5
    noid = not model and rng.random() < .2
    whole = noid and (rng.random() < .7)
    nid = 0 if noid else 1 if model or rng.random() < .7 else 2
    kind = rng.choice(["iso", "iso", "plain", "german", "zulu", "unix", "junk", "none"]) if not model else rng.choice(["iso", "unix", "plain"])
    noparse = kind in ("unix", "junk")
    delim = rng.choice([",", ",", ";", "\t", "|", " " if kind not in ("plain",) else ","])
    agg, tagg = rng.choice(["_", "-", "", "+"]), "_" if kind == "german" or rng.random() < .5 else "_"
    nfiles = 1 if model or (noid and not whole) else rng.choice([1, 1, 2, 3])
    if model:
        grp = bool(grouped)
        res = [dict(r, t=r["t"] * rng.choice([1, 1000, 3600000]) if False else r["t"]) for r in rows]
        step = rng.choice([1, 10, 999, 1000, 2000])
        for r in res:
            r["t"] *= step
    else:
        grp = rng.random() < .5
        ids = [[rng.choice(WORDS) for _ in range(nid)] for _ in range(rng.randint(1, 4))]
        n = rng.choice([0, 1, 2, 4, 8, 16, 40])
        ts = rng.choice([1, 5, 1000, 10 ** 6])
        res = []
        for i in range(n):
            k = "P" if not wk else rng.choice(["P", "P", "P", "L", "X"] if rng.random() < .5 else ["P", "L"])
            res.append({"f": 0, "id": rng.choice(ids) if nid else [], "t": rng.randint(0, 8) * ts, "k": k,
                        "ls": [[point(rng)]] if k == "P" else lines(rng) if k == "L" else []})
        if grp and not noid:
            order = []
            for r in res:
                if agg.join(r["id"]) not in order:
                    order.append(agg.join(r["id"]))
            res.sort(key=lambda r: order.index(agg.join(r["id"])))
        if grp and whole and rng.random() < .8:          # a line within would break up the points of its file
            res = [r for r in res if r["k"] != "L"]
            n = len(res)
        cuts = sorted(rng.randint(0, n) for _ in range(nfiles - 1))
        for i, r in enumerate(res):
            r["f"] = sum(1 for c in cuts if c <= i)
    timed = kind not in ("none", "junk")
    # layout
    cols = [f"id{j}" for j in range(nid)] + (["geom"] if wk else ["px", "py"]) + ["t0", "t1"][: {"german": 2, "none": 0}.get(kind, 1)] + rng.choice([[], ["foo"], ["foo", "bar"]])
    rng.shuffle(cols)
    nohead = rng.random() < .4
    skip = rng.choice([0, 0, 1, 2])
    q = lambda s: '"' + s.replace('"', '""') + '"' if delim in s or '"' in s or rng.random() < .1 else s
    L = []
    for f in range(nfiles):
        L.append(f"file {f}")
        if not nohead:
            L.append("text " + delim.join(cols))
        for _ in range(skip):
            L.append("text " + delim.join("junk" for _ in cols))
        for r in res:
            if r["f"] == f:
                t = fmt_time(rng, kind, r["t"])
                v = {**{f"id{j}": x for j, x in enumerate(r["id"])}, **{f"t{j}": x for j, x in enumerate(t)}, "foo": rng.choice(["", "1", "z"]), "bar": "b"}
                if wk:
                    v["geom"] = wkt(rng, r["k"], r["ls"])
                else:
                    v["px"], v["py"] = num(r["ls"][0][0][0], rng), num(r["ls"][0][0][1], rng)
                L.append("text " + delim.join(q(v[c]) for c in cols))
    name = lambda c: (str(cols.index(c)) if nohead else c) if c in cols else rng.choice(["missing", "0x"])
    if not timed:
        for r in res:
            r["t"] = -1
    tcols = [c for c in ("t0", "t1") if c in cols]
    sel = [] if rng.random() < .7 else rng.sample(sorted({agg.join(r["id"]) for r in res} | {"0", "1", "zz"} - {""}), rng.randint(1, 2))
    dl = {"\t": "\\t", " ": "\\s"}.get(delim, delim)
    if kind == "none":
        tc = [] if nohead or rng.random() < .5 else ["time"]       # a time column that is not there is no time
    else:
        tc = [name(c) for c in tcols]
    L.append("rows " + json.dumps(res, ensure_ascii=False))
    ic = [name(f"id{j}") for j in range(nid)]
    L.append(f"csv {int(wk)} {int(grp)} {int(noid)} {int(whole)} {int(noparse)} {skip} {int(nohead)} {dl} "
             + " ".join([name("px") if not wk else "x", name("py") if not wk else "y", name("geom") if wk else "geometry", word(agg), tagg, FORMATS[kind]])
             + f" {len(ic)} {' '.join(ic)} {len(tc)} {' '.join(tc)} {len(sel)} {' '.join(word(s) for s in sel)}")
    return L


def inp(rng):
    rows, L = [], ["file 0"]
    for _ in range(rng.randint(0, 6)):
        k = rng.choice("PPLLX")
        ls = [[point(rng) for _ in range(rng.randint(1, 5))]] if k == "P" else lines(rng) if k == "L" else []
        s = rng.choice(["|", ";", ",", " | "]).join(wkt(rng, "P", [[p]]) for p in ls[0]) if k == "P" else wkt(rng, k, ls, False) if k == "L" else "nonsense (1 2)"
        rows.append({"k": k, "ls": ls})
        L.append("text " + rng.choice(["", " "]) + s + rng.choice(["", " "]))
    if rng.random() < .5:                        # nothing is read after an empty line
        L += ["text ", "text LINESTRING(1 1,2 2)"]
    return L + ["rows " + json.dumps(rows), "input"]


def gpx(rng):
    rows, L = [], []
    kind = rng.choice(["zulu", "iso", "unix", "junk", "none"])
    noid = rng.random() < .3
    ids = set()
    for f in range(rng.choice([1, 1, 2])):
        meta = rng.choice(["", "", "M", "meta"])
        L.append(f"file {f}")
        s = "<gpx>" + (f"<metadata><name>{meta}</name></metadata>" if meta or rng.random() < .3 else "")
        for _ in range(rng.randint(0, 3)):
            name = rng.choice(["", "A", "B", "trip"])
            segs = []
            s += "<trk>" + (f"<name>{name}</name>" if name else "")
            for _ in range(rng.randint(1, 3)):
                seg = []
                s += "<trkseg>"
                for _ in range(rng.choice([0, 1, 2, 5, 20])):
                    p, ms = point(rng), rng.randint(0, 6) * rng.choice([1, 700, 1000])
                    t = fmt_time(rng, kind, ms)
                    s += f'<trkpt lat="{num(p[1], rng)}" lon="{num(p[0], rng)}">' + (f"<time>{t[0]}</time>" if t else "") + "</trkpt>"
                    seg.append({"t": ms if kind not in ("junk", "none") else -1, "p": p})
                s += "</trkseg>"
                segs.append(seg)
            s += "</trk>"
            rows.append({"name": name, "meta": meta, "segs": segs})
            ids |= {name, meta}
        L.append("text " + s + "</gpx>")
    sel = [] if rng.random() < .7 else rng.sample(sorted((ids | {"0", "1"}) - {""}), 1)
    return L + ["rows " + json.dumps(rows), f"gpx {int(noid)} {int(kind in ('unix', 'junk'))} {FORMATS[kind]} {len(sel)} {' '.join(sel)}"]


def edges(rng):
    n = rng.randint(2, 5)
    pts = rng.sample([(x, y) for x in range(5) for y in range(5)], n)
    es, nid = [], rng.randint(1, 5)
    for _ in range(rng.randint(1, 8)):
        s, t = rng.randrange(n), rng.randrange(n)
        mid = [(rng.randint(5, 9), rng.randint(5, 9))] if s == t or rng.random() < .4 else []
        es.append((rng.randint(1, nid), s, t, [pts[s]] + mid + [pts[t]]))
    txt = lambda p: f"{len(p)} " + " ".join(f"{x} {y}" for x, y in p)
    L = [f"enet {txt(pts)} {len(es)} " + " ".join(f"{i} {s + 1} {t + 1} {txt(p)}" for i, s, t, p in es)]
    for _ in range(rng.randint(1, 3)):
        have = sorted({e[0] for e in es})
        cols, skip = rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 1, 2])
        delim = rng.choice([",", ";", "\\t", "\\s"])
        d = {"\\t": "\t", "\\s": " "}.get(delim, delim)
        width = rng.randint(max(cols, 1), 4)
        where = rng.sample(range(width), cols)
        rows = []
        for f in range(rng.choice([1, 1, 2])):
            ids = []
            L.append(f"file {f}")
            L += ["text header"] * skip
            cur = None
            for _ in range(rng.choice([0, 1, 2, 3, 4])):
                now = []
                for _ in range(max(cols, 1)):
                    nxt = [e[0] for e in es if cur is None or e[3][0] == cur[3][-1]]
                    i = rng.choice(nxt) if nxt and rng.random() < .7 else rng.choice(have + ([99] if rng.random() < .1 else []))
                    cur = next((e for e in es if e[0] == i), None)
                    now.append(i)
                ids += now
                if cols:
                    v = [rng.choice(["1", "x", "2.5", ""]) for _ in range(width)]
                    for c, i in zip(where, now):
                        v[c] = str(i)
                    L.append("text " + d.join(v))
                else:
                    L.append(f"text {now[0]}")
            rows.append(ids)
        L.append("rows " + json.dumps(rows))
        L.append(f"edges {delim if cols else '-'} {skip} {cols} {' '.join(map(str, where))}")
    return L
