"""Reference evaluation of queries: what the stored points define as the answer."""
import math

UNIT = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}

def pct(vals, q):
    while q > 100: q /= 10.0
    v = sorted(vals); n = len(v)
    if n == 1: return v[0]
    p = q / 100.0
    i = 0.0 if p == 0 else float(n) if p == 1 else p * (n + 1)
    if i < 1: return v[0]
    if i >= n: return v[-1]
    k = int(math.floor(i))
    return v[k - 1] + (i - k) * (v[k] - v[k - 1])

def dev(v):
    m = math.fsum(v) / len(v)
    return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))

def fold(f, v):
    """v in order of time (downsampling) or in any order (aggregation)"""
    if f == "avg": return math.fsum(v) / len(v)
    if f == "sum": return math.fsum(v)
    if f == "count": return float(len(v))
    if f == "max": return max(v)
    if f == "min": return min(v)
    if f == "dev": return dev(v)
    if f == "first": return v[0]
    if f == "last": return v[-1]
    if f[0] == "p": return pct(v, float(f[1:]))
    raise ValueError(f)

def interval(ds, unit):
    """length of a downsampling interval in the resolution of the data (unit ticks per second)"""
    s = ds[0]
    if s.endswith("ms"): n = int(s[:-2]) * unit // 1000
    else: n = int(s[:-1]) * UNIT[s[-1]] * unit
    return max(n, 1)

def reach(m, unit):
    """The range of timestamps a query's answer depends on."""
    s, e = m["s"], m["e"]
    if m.get("ds") and m["ds"][0] != "0all":
        i = interval(m["ds"], unit)
        s, e = -(-s // i) * i, e // i * i + i - 1
    return s, e

def downsample(pts, m, unit):
    """pts: sorted [(ts, value)] in reach; returns [(ts, value)]"""
    ds = m["ds"]
    if ds[0] == "0all":
        return [(m["s"], fold(ds[1], [v for t, v in pts]))] if pts else []
    i = interval(ds, unit)
    b = {}
    for t, v in pts: b.setdefault(t - t % i, []).append(v)
    out = dict((t, fold(ds[1], v)) for t, v in b.items())
    if ds[2]:
        s, e = reach(m, unit)
        for t in range(s, e + 1, i): out.setdefault(t, 0.0 if ds[2] == "zero" else float("nan"))
    return sorted(out.items())

def rate(pts, opt, per):
    """per: ticks per second of the timestamps"""
    out = []
    for (t0, v0), (t1, v1) in zip(pts, pts[1:]):
        d = v1 - v0
        if opt.get("counter") and d < 0:
            if opt.get("dropResets"): continue
            x = (opt.get("counterMax", 2.0 ** 64) - v0 + v1) / ((t1 - t0) / float(per))
            if opt.get("resetValue") and x > opt["resetValue"]: x = 0.0
        else:
            x = d / ((t1 - t0) / float(per))
        out.append((t1, x))
    return out

def evaluate(m, series, known, unit):
    """series: {(metric, tags tuple): [(ts, value)]} matching the filter, in reach; known: all matching series.
    Returns {(frozenset of tags, frozenset of aggregated tags): {ts: value}} or None where the answer is not defined."""
    lines = []
    for k in sorted(known):
        p = sorted(series.get(k, ()))
        if m.get("ds"): p = downsample(p, m, unit)
        if p: lines.append((dict(k[1]), p))
    agg = m["agg"]
    res = []
    if agg == "none":
        res = [(t, (), p) for t, p in lines]
    elif agg.startswith("top") or agg.startswith("bottom"):
        top = agg.startswith("top"); n = int(agg[3:] if top else agg[6:])
        rank = sorted(lines, key=lambda l: -max(v for t, v in l[1][-3:]) if top else min(v for t, v in l[1][-3:]))
        key = lambda l: max(v for t, v in l[1][-3:]) if top else min(v for t, v in l[1][-3:])
        if len(rank) > n and abs(key(rank[n - 1]) - key(rank[n])) <= 1e-6 * max(1.0, abs(key(rank[n]))): return None
        res = [(t, (), p) for t, p in rank[:n]]
    else:
        g = {}
        for t, p in lines:
            g.setdefault(tuple(sorted((k, t[k]) for k in m["filter"] if k not in m.get("ng", ()))), []).append((t, p))
        for key, ls in g.items():
            keys = set(ls[0][0])
            for t, p in ls: keys &= set(t)
            same = dict((k, ls[0][0][k]) for k in keys if len(set(t[k] for t, p in ls)) == 1)
            col = {}
            for t, p in ls:
                for ts, v in p: col.setdefault(ts, []).append(v)
            res.append((same, tuple(k for k in keys if k not in same), sorted((ts, fold(agg, v)) for ts, v in col.items())))
    out = {}
    conv = unit == 1 and m["ms"]
    for tags, at, p in res:
        if m.get("rate") is not None:
            # rounding decides whether a computed counter that did not move was reset
            if m["rate"].get("counter") and any(abs(b[1] - a[1]) <= 1e-9 * max(1.0, abs(a[1])) for a, b in zip(p, p[1:])) and (m.get("ds") or (at or len(lines) > 1)): return None
            p = rate(p, m["rate"], unit)
        if not p: continue
        k = (frozenset(tags.items()), frozenset(at))
        if k in out: return None
        out[k] = dict((ts * 1000 if conv else ts, v) for ts, v in p)
    return out

def same(a, b):
    if a != a or b != b: return a != a and b != b
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
