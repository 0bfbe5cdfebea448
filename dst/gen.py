"""Seeded generation of plans. Everything a plan does follows from (property, seed)."""
import json, random, re, time, zlib

DAY = 86400
HTTP, HTTP2, TELNET, INFLUX = 6182, 6183, 6181, 6180
FAR = 10 ** 9

class G(object):
    """State shared while one plan is generated."""
    def __init__(self, prop, seed):
        self.prop, self.seed = prop, seed
        self.r = random.Random("%s/%d" % (prop, seed))
        self.oid = 0
        self.n = 0                       # value counter
        self.buf = 1 << 19               # size of the server's network buffer
        self.ms = False
        self.wall = 1700000000 + self.r.randrange(0, 40) * DAY // 4
        self.unit = 1
        self.pool = {}                   # series -> timestamps used
        self.cursor = {}
        self.lives = []
        self.tmo = 120000
        self.maxday = 1
        self.future = self.past = 0
        self.step = (2, 2, 4, 10, 60)
        self.p_dup = 0.15; self.p_ooo = 0.15; self.p_day = 0.03; self.p_unit = 0; self.p_when = 0; self.p_hdr = 0; self.p_zip = 0; self.p_style = 0; self.nb = 0
        self.noquery = set()

    def plan(self, **kw):
        p = {"property": self.prop, "seed": self.seed, "lives": self.lives, "ms": self.ms}
        p.update(kw)
        return p

    # ---- ids
    def op(self, k, a, b=(), m=None):
        self.oid += 1
        o = {"id": self.oid, "k": k, "a": a}
        if b: o["b"] = list(b)
        if m: o["m"] = m
        return o

    def value(self):
        self.n += 1
        v = self.n + self.r.choice((0, 0, 0, 0.25, 0.5, 0.75))
        return -v if self.r.random() < 0.15 else v

    # ---- series universe
    def universe(self, nm=None, ns=None, ntags=None, infl=0.25, long=0, many=0):
        r = self.r
        many = many and r.random() < many
        self.series = []                 # (metric, tags dict, influx?)
        nm = nm or r.choice((1, 1, 2, 3))
        for i in range(nm):
            metric = r.choice(("m", "cpu", "sys.load", "a-b_c")) + str(i)
            isinf = r.random() < infl
            keys = ["host", "dc", "rack"][: (ntags if ntags is not None else r.choice((1, 1, 2, 2, 3)))]
            seen = set()
            for j in range(ns or r.choice((1, 1, 2, 3, 4) if not many else (6, 8, 12))):
                tags = {}
                for k in keys:
                    tags[k] = r.choice(("a", "b", "c", "h-1", "x.y") if not many else ("h%d" % (j % 12), "b", "c"))
                if isinf:
                    tags["_field"] = r.choice(("f", "g"))
                key = json.dumps(tags, sort_keys=True)
                if key in seen: continue
                seen.add(key)
                self.series.append((metric, tags, isinf))
        if long and r.random() < long:          # a long value, as long as tags may be
            m, tags, isinf = self.series[-1]
            if tags:
                k = r.choice(sorted(tags))
                self.series[-1] = (m, dict(tags, **{k: r.choice("xyz") * r.choice((100, 320, 325, 326, 330, 500, 900))}), isinf)
        self.metrics = sorted(set(s[0] for s in self.series))

    def ts(self, s):
        """A timestamp for a series: mostly increasing, sometimes late, sometimes a repeat."""
        r = self.r
        key = s[0] + json.dumps(s[1], sort_keys=True)
        pool = self.pool.setdefault(key, [])
        x = r.random()
        if pool and x < self.p_dup:
            return r.choice(pool[-12:] if r.random() < 0.7 else pool)
        cur = self.cursor.get(key)
        if cur is None or x > 1 - self.p_day:
            d = r.randrange(0, self.maxday) if self.maxday > 1 else 0
            day0 = (self.wall // DAY) * DAY - (d + self.past) * DAY
            if self.future and r.random() < 0.2: day0 += r.randrange(1, self.future + 1) * DAY
            cur = (day0 + r.choice((0, 2, 3598, 3600, 40000, 60000, 86300, 86396))) * self.unit
        else:
            cur += 2 * self.unit * r.choice(self.step) // 2 if not self.ms else r.choice((10, 10, 500, 1000, 60000))
        cur -= cur % (2 if not self.ms else 10)
        if pool and x < self.p_dup + self.p_ooo:
            late = r.choice(pool) - r.choice((2, 4, 60, 3600)) * self.unit
            late -= late % (2 if not self.ms else 10)
            pool.append(late)
            return late
        self.cursor[key] = cur
        pool.append(cur)
        return cur

    def point(self, s=None):
        s = s or self.r.choice(self.series)
        return [s[0], s[1], self.ts(s), self.value()]

    def num(self, v):
        if v == int(v):
            i = int(v)
            return self.r.choice((str(i), str(i) + ".0")) if self.r.random() < 0.3 else str(i)
        return repr(v)

    # ---- encodings
    def stamp(self, t, far=False):
        """The timestamp as text, sometimes in another unit than the one it is stored in."""
        r = self.r
        if not self.p_unit or r.random() >= self.p_unit: return t
        u = r.choice((1000, 1000, 1000000, 1000000000) if far else (1000,))
        if self.ms and u == 1000: return t // 1000 if t % 1000 == 0 else t
        return t * (u // 1000 if self.ms else u) + r.randrange(u // 1000 if self.ms else u)

    def when(self, t, sep="-"):
        """The limit of a query as a timestamp, a date or a time before now."""
        r = self.r
        if not self.p_when or r.random() >= self.p_when: return str(self.stamp(t))
        lo, hi = self.window(True)
        if t == lo and r.random() < 0.5: return r.choice(("90d-ago", "15w-ago", "2200h-ago", "140000m-ago", "9000000s-ago", "1y-ago"))
        if t % self.unit and t not in (lo, hi): return str(t)
        x = time.gmtime(t // self.unit)
        if t in (lo, hi) and r.random() < 0.4: return time.strftime(r.choice(("%Y/%m/%d", "%Y/%m/%d" + sep + "%H:%M")), x)
        return time.strftime("%Y/%m/%d" + sep + "%H:%M:%S", x)

    def line_put(self, p, verb="put "):
        t = list(p[1].items())
        if self.r.random() < 0.2: self.r.shuffle(t)
        m, v, end = p[0], self.num(p[3]), ""
        if self.p_style and self.r.random() < self.p_style:      # other ways to write the same line
            r = self.r
            if r.random() < 0.4: m = '"%s"' % (m.replace("_", " ") if r.random() < 0.5 else m)
            if r.random() < 0.5: v = self.other(v, p[3])
            if r.random() < 0.3: v = '"%s"' % v
            if verb and r.random() < 0.4: end = "\r"
            if verb and r.random() < 0.2: verb = r.choice(("\n", "\r\n", " ")) + verb
        return "%s%s %d %s%s%s" % (verb, m, self.stamp(p[2]), v, "".join(" %s=%s" % kv for kv in t), end)

    def other(self, v, x):
        """Another notation of a number."""
        c = ["%.6e" % x, "%.7E" % x, "%.3f" % x, "%.9g" % x]
        if x >= 0: c.append("+" + v)
        c = [a for a in c if float(a) == x]
        return self.r.choice(c) if c else v

    def line_influx(self, pts):
        """points that share metric, tags and ts, differing in _field"""
        p = pts[0]
        t = [(k, v) for k, v in p[1].items() if k != "_field"]
        return "%s%s %s %d" % (p[0], "".join(",%s=%s" % kv for kv in t), ",".join("%s=%s" % (q[1]["_field"], self.num(q[3])) for q in pts), self.stamp(p[2], True))

    def json_put(self, pts):
        a = []
        for p in pts:
            ks = ["metric", "timestamp", "value", "tags"]
            o = {"metric": p[0], "timestamp": self.stamp(p[2]), "value": p[3], "tags": p[1]}
            if self.p_style and self.r.random() < self.p_style:
                a.append(self.json_other(o)); continue
            a.append("{" + ",".join('"%s":%s' % (k, json.dumps(o[k], separators=(",", ":"))) for k in ks) + "}")
        return a[0] if len(a) == 1 and self.r.random() < 0.5 else "[" + ",".join(a) + "]"

    def json_other(self, o):
        """The same object with another order, white space and notation."""
        r = self.r
        sp = (lambda: "") if r.random() < 0.3 else lambda: r.choice(("", "", " ", "  ", "\n", "\t", "\r\n"))
        ks = list(o)
        if r.random() < 0.5: r.shuffle(ks)
        f = []
        for k in ks:
            if k == "metric": v = '"%s"' % (o[k].replace("_", " ") if r.random() < 0.3 else o[k])
            elif k == "tags":
                t = []
                for n, x in o[k].items():
                    if "_" in x and r.random() < 0.6: x = x.replace("_", r.choice(" ,;\n"))     # stored as '_'
                    bare = x in ("true", "false") or re.fullmatch(r"\d+(\.\d+)?", x)
                    t.append('%s"%s"%s:%s%s%s' % (sp(), n, sp(), sp(), x if bare and r.random() < 0.7 else '"%s"' % x, sp()))
                v = "{" + ",".join(t) + "}"
            else:
                v = json.dumps(o[k])
                if k == "value" and r.random() < 0.4: v = self.other(v, o[k]).lstrip("+")
                if r.random() < 0.3: v = '"%s"' % v
            f.append('%s"%s"%s:%s%s%s' % (sp(), k, sp(), sp(), v, sp()))
        return "{" + ",".join(f) + "}"

    def http(self, method, path, body=None, slot=0, port=None, m=None, hdr="", tmo=None):
        self.oid += 1
        rid = "r%d" % self.oid
        q = "%s %s HTTP/1.1\r\nHost: sim\r\nX-Request-ID: %s\r\n%s" % (method, path, rid, hdr)
        if body is not None or method == "POST":
            body = body or ""
            q += "Content-Length: %d\r\n" % len(body)
        q += "\r\n" + (body or "")
        if self.p_hdr and self.r.random() < self.p_hdr:       # other headers, another order, no id
            h, b = q.split("\r\n\r\n", 1); l = h.split("\r\n")
            if self.r.random() < 0.5: l.remove("X-Request-ID: " + rid); rid = None
            l += self.r.sample(("Accept: */*", "User-Agent: sim/1.0", "Content-Type: text/plain", "Connection: keep-alive", "Cache-Control: no-cache", "Cookie: a=b; c=d"), self.r.choice((0, 1, 3)))
            t = l[1:]; self.r.shuffle(t)
            q = "\r\n".join(l[:1] + t) + "\r\n\r\n" + b
        mm = {"t": "http"}
        if m: mm.update(m)
        mm["rid"] = rid
        return {"id": self.oid, "k": "http", "a": [slot, port or HTTP, tmo or self.tmo, q], "b": [3], "m": mm}

    def pack(self, o, spoil=None):
        """The same request with a compressed body."""
        r = self.r
        enc = r.choice(("gzip", "gzip", "x-gzip", "deflate"))
        h, body = o["a"][3].split("\r\n\r\n", 1)
        z = zlib.compressobj(r.choice((0, 1, 6, 9)), zlib.DEFLATED, 15 if enc == "deflate" else 31)
        b = z.compress(body.encode("latin-1")) + z.flush()
        if spoil == "cut": b = b[: r.randrange(len(b))]
        elif spoil == "more": b += b"x" * r.choice((1, 50))
        elif spoil == "bits": i = r.randrange(len(b)); b = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1 :]
        elif spoil == "name": enc = r.choice(("br", "compress", "identity", "zstd"))
        elif spoil == "other": enc = "gzip" if enc == "deflate" else "deflate"
        h = "\r\n".join(l if not l.startswith("Content-Length:") else "Content-Length: %d\r\nContent-Encoding: %s" % (len(b), enc) for l in h.split("\r\n"))
        o["a"][3] = h + "\r\n\r\n" + b.decode("latin-1")
        return o

    def bad_pack(self, slot=0):
        """A compressed body that cannot be unpacked, or hardly."""
        r = self.r
        p = next((q for q in (self.point() for _ in range(9)) if "_field" not in q[1]), None)
        if p is None: return self.put_op(slot)
        line = self.line_put(p) + "\n"
        if r.random() < 0.5:
            spoil = r.choice(("cut", "more", "bits", "name", "other"))
            return self.pack(self.http("POST", "/api/put", line, slot, None, {"t": "put", "pts": [p] if spoil == "bits" else [], "how": "plain", "badreq": 1, "status": [400] if spoil != "bits" else [200, 400]}), spoil)
        n = self.buf + r.choice((-2, -1, 0, 1, 500, 300000))
        o = self.http("POST", "/api/put", (line * (n // len(line) + 1))[-n:], slot, None, {"t": "put", "pts": [p], "how": "plain", "badreq": 1, "status": [400] if n >= self.buf else [200, 400]})
        while True:
            self.pack(o)
            if len(o["a"][3]) < self.buf - 500: return o
            o = self.http("POST", "/api/put", (line * (n // len(line) + 1))[-n:], slot, None, o["m"])

    def put_op(self, slot=0, pts=None, how=None, port=None):
        o = self.put_op0(slot, pts, how, port)
        if self.p_zip and self.r.random() < self.p_zip: self.pack(o)
        return o

    def put_op0(self, slot=0, pts=None, how=None, port=None):
        r = self.r
        if pts is None:
            n = r.choice((1, 1, 2, 4, 8, 20))
            s = r.choice(self.series)
            pts = [self.point(s if r.random() < 0.7 else None) for _ in range(n)]
        while len(pts) > 1 and 300 + sum(70 + len(p[0]) + sum(len(k) + len(v) + 6 for k, v in p[1].items()) for p in pts) > self.buf: pts = pts[: len(pts) // 2]
        inf = [p for p in pts if "_field" in p[1]]
        put = [p for p in pts if "_field" not in p[1]]
        if inf and not (put and r.random() < 0.5):
            body = "\n".join(self.line_influx([p]) for p in inf) + "\n"
            return self.http("POST", "/api/write", body, slot, port or HTTP, {"t": "put", "pts": inf, "how": "influx"})
        how = how or r.choice(("plain", "plain", "json"))
        if how == "json":
            body = self.json_put(put)
        else:
            body = "\n".join(self.line_put(p) for p in put) + "\n"
        return self.http("POST", "/api/put", body, slot, port or r.choice((HTTP, HTTP2)), {"t": "put", "pts": put, "how": how})

    def telnet_ops(self, slot=5, n=None, bar=True):
        r = self.r
        ops = []
        for _ in range(n or r.choice((1, 2, 3))):
            pts = [p for p in (self.point() for _ in range(r.choice((1, 2, 5, 12)))) if "_field" not in p[1]]
            if pts:
                ops.append(self.op("send", [slot, TELNET, "\n".join(self.line_put(p) for p in pts) + "\n"], [2], {"t": "tput", "pts": pts, "slot": slot}))
        if ops and bar:
            ops.append(self.op("tbar", [slot, TELNET, self.tmo], (), {"t": "tbar", "slot": slot}))
        return ops

    def filt(self, metric):
        r = self.r
        ser = [s for s in self.series if s[0] == metric]
        x = r.random()
        if x < 0.4 or not ser:
            return {}
        s = r.choice(ser)
        f = {}
        for k, v in s[1].items():
            y = r.random()
            if y < 0.35: f[k] = v
            elif y < 0.6: f[k] = "*"
            elif y < 0.75 and k != "_field" and len(v) < 500: f[k] = v + "|" + r.choice(("a", "b", "zz"))
            elif y < 0.9 and k != "_field" and len(v) < 200 and v.replace("_", "").replace("-", "").isalnum() and v.isascii(): f[k] = self.form(v)
        return f

    # the other forms of a filter
    def form(self, v):
        r = self.r; kind = r.choice(("literal_or", "iliteral_or", "not_literal_or", "not_iliteral_or", "wildcard", "iwildcard", "regexp", "1x"))
        cut = v[:r.randrange(1, len(v) + 1)]
        if kind[0] == "i" and r.random() < 0.5: v, cut = v.swapcase(), cut.swapcase()
        if kind == "1x": return cut + "*"
        if kind == "regexp": return "regexp(%s)" % r.choice((v, cut + ".*", ".*" + v[-1]))
        if "wild" in kind: return "%s(%s)" % (kind, r.choice((v, cut + "*", "*" + v[-1:], v[0] + "*" + v[-1] if len(v) > 1 else v)))
        return "%s(%s)" % (kind, "|".join(r.sample([v, cut, "a", "zz"], r.choice((1, 1, 2, 3)))))

    def window(self, full=False):
        r = self.r
        off = 1 if not self.ms else 5
        lo = ((self.wall // DAY) * DAY - (self.maxday + 3) * DAY) * self.unit + off
        hi = ((self.wall // DAY) * DAY + (4 + self.future) * DAY) * self.unit + off
        if full or r.random() < 0.5:
            return lo, hi
        allts = [t for v in self.pool.values() for t in v]
        if not allts:
            return lo, hi
        a = r.choice(allts); b = r.choice(allts)
        if a > b: a, b = b, a
        return a - off - r.choice((0, 60, 3600)) * self.unit * 2, b + off + r.choice((0, 60, 3600)) * self.unit * 2

    def query_op(self, metric=None, filt=None, win=None, slot=0, port=None, extra=None):
        r = self.r
        metric = metric or r.choice(self.metrics)
        f = self.filt(metric) if filt is None else filt
        s, e = win or self.window()
        m = {"t": "q", "metric": metric, "filter": f, "s": s, "e": e}
        fs = "{" + ",".join("%s=%s" % kv for kv in f.items()) + "}" if f else ""
        if r.random() < 0.25:
            q = {"metric": metric, "aggregator": "none", "tags": f}
            s, e = [int(x) if x.isdigit() else x for x in (self.when(s, r.choice("- ")), self.when(e, r.choice("- ")))] if self.p_when else (self.stamp(s), self.stamp(e))
            body = json.dumps({"start": s, "end": e, "msResolution": self.ms, "queries": [q]}, separators=(",", ":"))
            return self.http("POST", "/api/query", body, slot, port or r.choice((HTTP, HTTP2)), m)
        path = "/api/query?start=%s&end=%s&m=none:%s%s" % (self.when(s), self.when(e), metric, fs)
        if self.ms: path += "&msResolution=true"
        return self.http("GET", path, None, slot, port or r.choice((HTTP, HTTP2)), m)

    def admin(self, cmd, slot=0, m=None, tmo=None):
        mm = {"t": "admin", "cmd": cmd}
        if m: mm.update(m)
        return self.http("POST", "/api/admin?cmd=" + cmd, "", slot, None, mm, tmo=tmo or 600000)

    def query_all(self, slot=0):
        return [self.query_op(m, {}, self.window(True), slot) for m in self.metrics]

    # ---- swarm
    def conf(self, **over):
        r = self.r
        c = {"ticktock.home": "/S", "tsdb.data.dir": "/S/data", "log.file": "/S/log/tt.log", "log.level": r.choice(("INFO", "INFO", "WARN", "DEBUG", "TRACE"))}
        c["http.listener.count"] = r.choice((1, 1, 2, 3)); c["http.responders.per.listener"] = r.choice((1, 2, 2, 3))
        c["tcp.listener.count"] = r.choice((1, 1, 2)); c["tcp.responders.per.listener"] = r.choice((1, 2, 3))
        c["tsdb.page.size"] = r.choice(("64b", "128b", "128b", "256b", "256b", "512b", "1024b"))
        if r.random() < 0.4: c["tsdb.page.count"] = r.choice((2, 4, 8, 32, 256))
        c["tsdb.compressor.version"] = r.choice((4, 4, 4, 3, 2, 1, 0))
        c["append.log.flush.frequency"] = r.choice(("5s", "20s", "60s", "5min"))
        c["tsdb.flush.frequency"] = r.choice(("5s", "20s", "60s", "5min"))
        if r.random() < 0.5: c["ts.archive.threshold"] = r.choice(("10s", "1min", "10min", "1h"))
        if r.random() < 0.5: c["tsdb.thrashing.threshold"] = r.choice(("1min", "2min", "10min"))
        if r.random() < 0.4: c["tsdb.metric.buckets"] = r.choice((1, 2, 4))
        if r.random() < 0.3: c["tcp.responders.queue.size"] = r.choice((2, 4, 16))
        if r.random() < 0.2: c["tsdb.timezone"] = "UTC"
        if r.random() < 0.15: c["tsdb.gc.frequency"] = r.choice(("10s", "1min"))
        if r.random() < 0.3: c["timer.thread.count"] = r.choice((1, 2, 3))
        if r.random() < 0.2: c["tsdb.self_meter.enabled"] = "false"
        if r.random() < 0.3: c["stats.frequency"] = r.choice(("5s", "30s"))
        if self.nb and r.random() < 0.9: c["tsdb.metric.buckets"] = self.nb
        if self.ms: c["tsdb.timestamp.resolution"] = "millisecond"
        if r.random() < 0.3: c["tcp.buffer.size"] = r.choice(("8kb", "16kb", "64kb"))
        c.update(over)
        self.buf = int(str(c.get("tcp.buffer.size") or "512kb")[:-2]) * 1024
        return {k: v for k, v in c.items() if v is not None}

    def sched(self, **over):
        r = self.r
        p = {"seed": r.randrange(1, 1 << 40), "wall_s": self.wall, "nprocs": r.choice((1, 2, 4)), "junk": r.choice((0, 0xA5, 0xFF, 0x5A))}
        x = r.random()
        if x < 0.12: p["p_switch"] = 0.02; p["preempt_mean"] = 0
        elif x < 0.3: p["p_switch"] = 0.1; p["preempt_mean"] = 20000
        elif x < 0.6: p["p_switch"] = 0.1; p["preempt_mean"] = 3000
        elif x < 0.8: p["p_switch"] = 0.3; p["preempt_mean"] = 500
        elif x < 0.92: p["p_switch"] = 0.05; p["preempt_mean"] = 100
        else: p["pct"] = r.choice((3, 8, 20)); p["pct_len"] = r.choice((200000, 1000000)); p["preempt_mean"] = 0
        if r.random() < 0.3: p["p_stall"] = r.choice((0.001, 0.01)); p["stall_max_ms"] = r.choice((50, 2000, 20000))
        p["net_delay_us"] = r.choice((50, 200, 2000, 20000))
        p["p_seg"] = r.choice((0, 0.1, 0.4, 0.8)); p["p_coalesce"] = r.choice((0, 0.1, 0.5))
        if r.random() < 0.2: p["sndbuf"] = r.choice((64, 512, 4096))
        if r.random() < 0.3: p["seg_max"] = r.choice((8, 100, 536))
        if r.random() < 0.15: p["p_bigdelay"] = 0.02
        p["time_cap_s"] = 40000
        p.update(over)
        return p

    def sleep(self, ms): return self.op("sleep", [ms])
    def sleepu(self, us): return self.op("sleepu", [us])

    def life(self, clients, conf=None, params=None):
        l = {"params": params or self.sched(), "conf": conf or self.conf(), "clients": [{"id": i, "ops": o} for i, o in enumerate(clients)]}
        self.lives.append(l)
        return l

    def mix_client(self, nops, w, slots=True):
        """A client's operations drawn from weights."""
        r = self.r
        ops = []
        names = list(w); ws = [w[k] for k in names]
        slot = 0
        while len(ops) < nops:
            k = r.choices(names, ws)[0]
            if k == "put": ops.append(self.put_op(slot))
            elif k == "telnet": ops += self.telnet_ops()
            elif k == "q": ops.append(self.query_op(slot=slot))
            elif k == "nap": ops.append(self.sleepu(r.choice((50, 500, 5000, 50000))))
            elif k == "sleep": ops.append(self.sleep(r.choice((300, 1500, 6000, 25000))))
            elif k == "long": ops.append(self.sleep(r.choice((70, 320, 1300, 4000)) * 1000))
            elif k == "append": ops.append(self.admin("append", slot, {"flush": 1}))
            elif k == "gc": ops.append(self.admin("gc", slot))
            elif k == "log": ops.append(self.admin("log", slot))
            elif k == "stat": ops.append(self.http("GET", "/api/stats", None, slot, None, {"t": "misc"}))
            elif k == "cpq": ops.append(self.admin("cp", slot))
            elif k == "compact": ops.append(self.admin("compact", slot))
            elif k == "rollup": ops.append(self.admin("rollup", slot))
            elif k == "suggest": ops.append(self.http("GET", "/api/suggest?type=metrics&q=%s&max=1000" % r.choice(("", "m", "c", "*")), None, slot, None, {"t": "misc"}))
            elif k == "reconn": ops.append(self.op("close", [slot, 0]))
            elif k == "slot": slot = 1 - slot
        return ops

    def stop_ops(self, clients, sig=False):
        ops = [self.op("join", clients)] if clients else []
        if sig:
            o = self.op("sig", [self.r.choice((2, 15))], (), {"t": "stop"})
            ops.append(o)
        else:
            ops.append(self.http("POST", "/api/admin?cmd=stop", "", 9, None, {"t": "stop"}))
        ops.append(self.sleep(FAR))
        return ops


W_MIX = {"put": 10, "telnet": 3, "q": 8, "nap": 4, "sleep": 2, "long": 0.7, "append": 0.7, "gc": 0.3, "log": 0.2, "stat": 0.2, "suggest": 0.3, "reconn": 0.5, "slot": 1}

def crowd(g, cl, p=0.03):
    """Sometimes so many series come first that the index of a partition has to grow for those of the other clients."""
    r = g.r
    if r.random() >= p: return cl
    n = r.choice((4085, 4096, 4110, 4110)); t = ((g.wall // DAY) * DAY + 40000) * g.unit
    pts = [["crowd", {"n": str(i)}, t, i % 10] for i in range(n)]
    k = min(2100, max(1, (g.buf - 400) // 48))
    ops = [g.http("POST", "/api/put", "".join("put crowd %d %d n=%d\n" % (t, q[3], int(q[1]["n"])) for q in pts[i : i + k]), 0, HTTP, {"t": "put", "pts": pts[i : i + k], "how": "plain"}, tmo=7200000) for i in range(0, n, k)]
    late = r.random() < 0.7
    return [ops] + [([g.op("join", [0])] if late else []) + c for c in cl]

def uneven(g, p=0.06):
    """Sometimes there are more metrics than buckets, and the metrics of one bucket get most of the points."""
    r = g.r
    if r.random() >= p: return
    g.nb = r.choice((2, 2, 3, 4)); g.maxday = 4; g.day = -4
    g.universe(nm=r.choice((5, 6, 8, 10, 13)), ns=r.choice((1, 1, 2)), infl=r.choice((0, 0, 0.3)))

def spread(g, cl):
    """Writes to one day after the other, so that metrics are moved between buckets when the next day begins."""
    r = g.r
    if not g.nb or g.day > 2: return cl
    ops = []
    if g.day == -4:
        for q in g.series: ops.append(g.put_op(0, [[q[0], q[1], ((g.wall // DAY + g.day) * DAY + 500) * g.unit, g.value()]]))
    names = list(dict.fromkeys(q[0] for q in g.series))
    for _ in range(r.choice((3, 3, 4, 5))):
        full = r.randrange(g.nb); day = (g.wall // DAY + g.day) * DAY; t = 600
        for _ in range(r.choice((1, 2, 3))):
            pts = []
            for q in g.series:
                if names.index(q[0]) % g.nb == full or r.random() < 0.3:
                    for _ in range(r.choice((1, 1, 2, 30))): t += 2; pts.append([q[0], q[1], (day + t) * g.unit, g.value()])
            for inf in (0, 1):
                x = [q for q in pts if ("_field" in q[1]) == bool(inf)]
                for i in range(0, len(x), 40): ops.append(g.put_op(0, x[i : i + 40]))
        g.day += 1
        if g.day > 3: break
    late = r.random() < 0.6
    return [ops] + [([g.op("join", [0])] if late else []) + c for c in cl]

def gen_C01(seed):
    g = G("C01", seed); r = g.r
    g.p_when = r.choice((0, 0, 0, 0.2))
    g.ms = r.random() < 0.2
    g.unit = 1000 if g.ms else 1
    g.maxday = r.choice((1, 1, 2, 4))
    g.universe()
    uneven(g)
    conf = g.conf()
    nc = r.choice((2, 2, 3, 4, 5))
    w = dict(W_MIX)
    for k in list(w):
        if r.random() < 0.2 and k not in ("put", "q"): w[k] = 0
    cl = spread(g, crowd(g, [g.mix_client(r.choice((6, 10, 20)), w) for _ in range(nc)]))
    ctl = [g.op("join", list(range(len(cl))))] + g.query_all(9) + g.stop_ops([])
    g.life(cl + [ctl], conf, g.sched())
    return g.plan()

def begin(prop, seed, **kw):
    g = G(prop, seed); r = g.r
    g.ms = r.random() < kw.get("p_ms", 0.15)
    g.unit = 1000 if g.ms else 1
    g.maxday = kw.get("maxday") or r.choice((1, 1, 2, 4))
    g.universe(**kw.get("uni", {}))
    return g

def weights(g, base, keep=("put", "q")):
    w = dict(base)
    for k in list(w):
        if g.r.random() < 0.2 and k not in keep: w[k] = 0
    return w

def gap(g):
    return g.r.choice((0, 1, 30, 400, 4000, 40000)) * 1000 + g.r.randrange(1000)

def next_params(g, first, **over):
    p = g.sched(**over)
    if not first: p["wall_gap_ms"] = gap(g)
    return p

def gen_C02(seed):
    g = begin("C02", seed, uni={"many": 0.12}); r = g.r
    g.p_when = r.choice((0, 0, 0, 0.2))
    uneven(g, 0.15)
    conf = g.conf()
    w = weights(g, W_MIX)
    nl = r.choice((2, 2, 3, 4))
    for li in range(nl):
        nc = r.choice((1, 2, 3, 4))
        cl = [g.mix_client(r.choice((4, 8, 14)), w) for _ in range(nc)]
        if li and r.random() < 0.8: cl.append(g.query_all(9))
        if li == 0: cl = crowd(g, cl)
        cl = spread(g, cl)
        n = len(cl)
        ctl = []
        if li == nl - 1:
            ctl += [g.op("join", list(range(n)))] + g.query_all(9) + g.stop_ops([])
        else:
            x = r.random()
            if x < 0.25: ctl += g.stop_ops(list(range(n)), r.random() < 0.4)
            else:
                ctl += [g.sleepu(r.choice((100, 2000, 20000, 100000, 500000, 3000000, 30000000)) + r.randrange(1000))] + g.stop_ops([], r.random() < 0.4)
        g.life(cl + [ctl], dict(conf), next_params(g, li == 0))
    return g.plan()

W_CRASH = dict(W_MIX); W_CRASH.update({"append": 2.5, "sleep": 3})

def kill_op(g, p_dir=0.1):
    r = g.r
    x = r.random()
    if r.random() < p_dir: return g.op("kill", [0, r.choice((1, 1, 2, 3, 5, 8, 15)) + r.randrange(0, 3), 2])     # while files are renamed or removed
    if r.random() < 0.25: return g.op("kill", [0, r.choice((1, 2, 4, 8, 15, 30, 60, 120, 250)) + r.randrange(0, 6), 3])     # between stores into mapped files
    if x < 0.35: return g.op("kill", [r.choice((1, 50, 1000, 20000, 200000, 1000000)) + r.randrange(1000), 0, 0])
    return g.op("kill", [0, r.choice((1, 1, 2, 3, 5, 8, 15, 40, 100)) + r.randrange(0, 3), 1 if r.random() < 0.5 else 0])

def gen_crash(prop, seed, wk=W_CRASH):
    g = begin(prop, seed, uni={"many": 0.12}); r = g.r
    uneven(g)
    conf = g.conf()
    w = weights(g, wk, ("put", "q", "append"))
    nl = r.choice((2, 2, 3, 3, 4, 5))
    for li in range(nl):
        par = next_params(g, li == 0)
        nc = r.choice((1, 2, 3))
        x = r.random()
        last = li == nl - 1
        if li and not last and x < 0.2:                       # killed while starting
            y = r.random()
            if y < 0.4: par["crash_step"] = r.choice((1000, 10000, 50000, 150000, 400000)) + r.randrange(10000)
            elif y < 0.6: par["crash_op_map"] = r.choice((1, 4, 10, 30, 80)) + r.randrange(0, 12)
            else: par["crash_op_file"] = r.randrange(1, 60); par["crash_torn"] = r.randrange(2)
        cl = [g.mix_client(r.choice((4, 8, 14)), w) for _ in range(nc)]
        if li and r.random() < 0.8: cl.append(g.query_all(9))
        if li == 0: cl = crowd(g, cl)
        cl = spread(g, cl)
        n = len(cl)
        ctl = []
        if last:
            ctl += [g.op("join", list(range(n)))] + g.query_all(9) + g.stop_ops([])
        else:
            delay = g.sleepu(r.choice((100, 2000, 20000, 100000, 500000, 3000000, 30000000, 100000000)) + r.randrange(1000))
            y = r.random()
            if y < 0.15: ctl += [delay] + g.stop_ops([], r.random() < 0.3)[:-1] + [kill_op(g), g.sleep(FAR)]     # killed while stopping
            elif y < 0.3: ctl += [g.op("join", list(range(n))), g.admin("append", 9, {"flush": 1}), kill_op(g), g.sleep(60000), g.op("end", [])]
            elif y < 0.45: ctl += [delay, kill_op(g), g.admin("append", 9, {"flush": 1}), g.sleep(60000), g.op("end", [])]
            elif y < 0.55: ctl += [g.op("join", list(range(n))), g.op("end", [])]
            else: ctl += [delay, kill_op(g), g.sleep(400000), g.op("end", [])]
        g.life(cl + [ctl], dict(conf), par)
    return g.plan()

def gen_C03(seed): return gen_crash("C03", seed)
def gen_C04(seed): return gen_crash("C04", seed)
def gen_C05(seed): return gen_crash("C05", seed)


# ---------------------------------------------------------------- C13 series identity and listings
def suggest_op(g, slot=9, full=False):
    r = g.r
    typ = r.choice(("metrics", "tagk", "tagv"))
    names = {"metrics": [s[0] for s in g.series], "tagk": [k for s in g.series for k in s[1]], "tagv": [v for s in g.series for v in s[1].values()]}[typ]
    q = "" if full else r.choice(names)[: r.choice((0, 1, 1, 2, 9))]
    if typ == "metrics" and q == "": q = "*"
    if q == "" and typ != "metrics": q = r.choice(names)[:1]
    return g.http("GET", "/api/suggest?type=%s&q=%s&max=1000" % (typ, q), None, slot, None, {"t": "suggest", "type": typ, "q": "" if q == "*" else q})

def lookup_op(g, slot=9, metric=None, filt=None):
    r = g.r
    metric = metric or r.choice(g.metrics)
    f = g.filt(metric) if filt is None else filt
    fs = "{" + ",".join("%s=%s" % kv for kv in f.items()) + "}" if f else ""
    return g.http("GET", "/api/search/lookup?m=%s%s&limit=%d" % (metric, fs, 1000), None, slot, None, {"t": "lookup", "metric": metric, "filter": f, "anystatus": 1})

def gen_C13(seed):
    g = begin("C13", seed, maxday=1, uni={"long": 0.2, "many": 0.15}); r = g.r
    g.p_when = r.choice((0, 0, 0.2))
    g.series = []
    names = ["m", "cpu", "sys.load", "a-b_c", "x/y", "M"]
    nm = r.choice((1, 2, 2, 3, 5))
    vals = ["a", "b", "c", "h-1", "x.y", "A", "aa"][: r.choice((1, 2, 3, 7))]
    keys = ["host", "dc", "rack", "h"][: r.choice((1, 2, 3, 4))]
    for i in range(nm):
        metric = r.choice(names) + str(i)
        isinf = r.random() < 0.35
        seen = set()
        for j in range(r.choice((2, 4, 8, 20))):
            ks = keys if r.random() < 0.6 else r.sample(keys, r.randrange(1, len(keys) + 1))
            tags = {k: r.choice(vals) for k in ks}
            if isinf: tags["_field"] = r.choice(("f", "g", "h", "ff"))
            k = json.dumps(tags, sort_keys=True)
            if k not in seen: seen.add(k); g.series.append((metric, tags, isinf))
    conf = g.conf()
    if r.random() < 0.12:                           # listings about as large as the server's buffer
        metric, n = r.choice(names) + "9", r.choice((40, 80, 160))
        for j in range(n): g.series.append((metric, {"host": "h%03d" % j, "dc": "d" * r.choice((1, 3, 30))}, False))
        conf["tcp.buffer.size"] = r.choice(("8kb", "16kb"))
    g.metrics = sorted(set(x[0] for x in g.series))
    g.p_dup = 0.3
    nl = r.choice((1, 1, 2, 3))
    for li in range(nl):
        nc = r.choice((2, 3, 4, 6))
        cl = []
        if len(g.series) > 60:
            for c in range(2):
                cl.append([g.put_op(pts=[g.point(x) for x in g.series[i: i + 20]]) for i in range(len(g.series) - 20, 0, -20) if r.random() < 0.6])
        for c in range(nc):
            ops = []
            for _ in range(r.choice((3, 6, 10))):
                x = r.random()
                if x < 0.62:
                    n = r.choice((1, 2, 6, 12))
                    ops.append(g.put_op(pts=[g.point(r.choice(g.series[: len(g.series) * (li + 1) // nl or 1])) for _ in range(n)]))
                elif x < 0.72: ops += g.telnet_ops(n=1)
                elif x < 0.82: ops.append(suggest_op(g, 0))
                elif x < 0.92: ops.append(lookup_op(g, 0))
                elif x < 0.96: ops.append(g.query_op())
                else: ops.append(g.sleepu(r.choice((50, 5000, 3000000))))
            cl.append(ops)
        listing = [lookup_op(g, 9, m, {}) for m in g.metrics] + [suggest_op(g, 9) for _ in range(4)] + g.query_all(9)
        if li: cl.append([o for o in listing if r.random() < 0.7]); 
        ctl = [g.op("join", list(range(len(cl))))]
        last = li == nl - 1
        ctl += [lookup_op(g, 9, m, {}) for m in g.metrics] + [suggest_op(g, 9) for _ in range(3)] + g.query_all(9)
        par = next_params(g, li == 0)
        if not last and r.random() < 0.5:
            ctl += [g.admin("append", 9, {"flush": 1}), g.op("end", [])]
        else: ctl += g.stop_ops([], r.random() < 0.3)
        g.life(cl + [ctl], dict(conf), par)
    return g.plan()

# ---------------------------------------------------------------- C18 datagrams
def udp_op(g, pts, text=None, lossy=1, m=None):
    if text is None: text = g.line_put(pts[0], "")
    mm = {"t": "udp", "pts": pts}
    if m: mm.update(m)
    return g.op("udp", [TELNET, lossy, text], [2], mm)

BAD_LINES = ("", " ", "x", "m0", "m0 ", "m0 1700000000", "m0 1700000000 ", "m0 abc 1 host=a", "m0 1700000000 abc host=a", "m0 1700000000 1 host", "m0 1700000000 1 host=a dc", "put", "put ", "\n", " 1700000000 1 host=a", "m0  1700000000 1 host=a", "=")

def gen_C18(seed):
    g = begin("C18", seed, uni={"infl": 0}); r = g.r
    conf = g.conf(**{"udp.server.enabled": "true", "udp.listener.count": r.choice((1, 1, 2, 3)), "udp.batch.size": r.choice((1, 2, 8, 64, 256))})
    nl = r.choice((1, 1, 1, 2))
    if "m0" not in g.metrics: g.metrics.append("m0")
    for li in range(nl):
        cl = []
        for c in range(r.choice((1, 2, 3))):
            ops = []
            for _ in range(r.choice((5, 15, 40))):
                x = r.random()
                if x < 0.7:
                    for _ in range(r.choice((1, 1, 3, 8))): ops.append(udp_op(g, [g.point()], None, 1 if r.random() < 0.5 else 0))
                elif x < 0.8:
                    y = r.random()
                    if y < 0.5: t = r.choice(BAD_LINES)
                    elif y < 0.8: t = "m0 " + "9" * r.choice((10, 200, 255, 256, 257, 300, 1400))
                    else:                                   # up to and beyond the longest line taken (256 bytes)
                        pt = ["m0", {"host": "", "z": "1"}, g.wall * g.unit - g.wall * g.unit % 10, g.value()]
                        n = r.choice((250, 255, 256, 257, 258, 300, 600))
                        pt[1]["host"] = "v" * (n - len("m0 %d %s host= z=1" % (pt[2], repr(pt[3]))))
                        t = "m0 %d %s host=%s z=1" % (pt[2], repr(pt[3]), pt[1]["host"])
                        if n <= 256: ops.append(udp_op(g, [pt], t, 0)); continue
                    ops.append(udp_op(g, [], t, 0, {"bad": 1}))
                elif x < 0.87: ops.append(g.put_op(0))
                elif x < 0.94: ops.append(g.query_op())
                else: ops.append(g.sleepu(r.choice((100, 5000, 300000, 4000000))))
            cl.append(ops)
        ctl = [g.op("join", list(range(len(cl)))), g.sleep(90000)] + g.query_all(9)
        g.life(cl + [ctl + g.stop_ops([])], dict(conf), next_params(g, li == 0))
    return g.plan()

# ---------------------------------------------------------------- C19 changed tunables
def gen_C19(seed):
    g = begin("C19", seed, uni={"many": 0.12}); r = g.r
    uneven(g)
    w = weights(g, W_MIX)
    w["sleep"] = 1; w["long"] = 0.3
    nl = r.choice((2, 3, 3, 4))
    for li in range(nl):
        conf = g.conf()
        nc = r.choice((1, 1, 2, 3))
        cl = [g.mix_client(r.choice((4, 8, 14)), w) for _ in range(nc)]
        if li: cl.append(g.query_all(9))
        cl = spread(g, cl)
        n = len(cl)
        ctl = [g.op("join", list(range(n)))] + g.query_all(9) + g.stop_ops([], r.random() < 0.3)
        g.life(cl + [ctl], conf, next_params(g, li == 0))
    return g.plan()

# ---------------------------------------------------------------- C16 answers computed from the points stored
AGGS = ("avg", "sum", "max", "min", "count", "dev", "p50", "p90", "p99", "p999", "none", "none", "top1", "top3", "bottom1", "bottom3")
FUNCS = ("avg", "sum", "max", "min", "count", "dev", "first", "last", "p50", "p90", "p99", "p100")
LENGTHS = ("1s", "10s", "30s", "1m", "5m", "7m", "1h", "2h", "6h", "7h", "1d", "1w", "0all")
UNITS = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}

def agg_op(g, slot=0, lengths=LENGTHS, funcs=FUNCS, aggs=AGGS, metric=None, win=None, p_ds=0.7, p_rate=0.25, filt=None, raw=True):
    """A query whose answer the oracle computes from the points stored."""
    r = g.r
    metric = metric or r.choice(g.metrics)
    f = dict(g.filt(metric)) if filt is None else filt
    if r.random() < 0.3 and filt is None:
        ks = sorted(set(k for s in g.series if s[0] == metric for k in s[1]))
        if ks: f[r.choice(ks)] = "*"
    ng = [k for k in f if r.random() < 0.15]
    s, e = win or g.window()
    ds = None
    if r.random() < p_ds:
        ln = r.choice(lengths)
        if g.ms and r.random() < 0.2: ln = r.choice(("500ms", "250ms", "1500ms"))
        ds = [ln, r.choice(funcs), ""]
        if ln != "0all" and r.random() < 0.25:
            i = (int(ln[:-2]) if ln.endswith("ms") else int(ln[:-1]) * UNITS[ln[-1]] * g.unit)
            if (e - s) // i < 400: ds[2] = r.choice(("zero", "zero", "nan"))
        if ln != "0all" and r.random() < 0.3:
            i = (int(ln[:-2]) if ln.endswith("ms") else int(ln[:-1]) * UNITS[ln[-1]] * g.unit)
            s -= s % i
            if r.random() < 0.5: e -= e % i
    agg = r.choice(aggs)
    if ds and ds[2] and (agg[0] in "tb" or ds[2] == "nan"): agg = "none" if ds[2] == "nan" else "max"
    rate = None
    if r.random() < p_rate and not (ds and ds[2] == "nan"):
        rate = {}
        if r.random() < 0.5:
            rate["counter"] = True
            if r.random() < 0.5: rate["counterMax"] = r.choice((1000, 100000))
            if "counterMax" in rate and r.random() < 0.4: rate["resetValue"] = r.choice((1, 50))
    ms = g.ms or r.random() < 0.15
    m = {"t": "agg", "metric": metric, "filter": f, "s": s, "e": e, "agg": agg, "ds": ds, "rate": rate, "ms": ms, "ng": ng}
    dss = "-".join(x for x in ds if x) if ds else None
    use = r.choice((None, None, None, "ROLLUP_RAW", "ROLLUP_FALLBACK_RAW"))
    if raw and ds and (ds[0][-1] in "hdwl") and ds[1] in ("avg", "sum", "max", "min", "count"): use = "ROLLUP_RAW"
    post = r.random() < 0.3 and not ng
    if post and rate is not None and rate.get("counter") and r.random() < 0.3: rate["dropResets"] = True
    m["text"] = "%s:%s%s%s{%s} [%d,%d]%s" % (agg, dss + ":" if dss else "", "rate%s:" % (json.dumps(rate) if rate else "") if rate is not None else "", metric, ",".join("%s=%s" % kv for kv in f.items()), s, e, " ms" if ms else "")
    if post:
        q = {"metric": metric, "aggregator": agg, "tags": f}
        if dss: q["downsample"] = dss
        if use: q["rollupUsage"] = use
        if rate is not None:
            q["rate"] = True
            if rate: q["rateOptions"] = rate
        body = json.dumps({"start": g.stamp(s), "end": g.stamp(e), "msResolution": ms, "queries": [q]}, separators=(",", ":"))
        return g.http("POST", "/api/query", body, slot, r.choice((HTTP, HTTP2)), m)
    q = agg + ":"
    if rate is not None:
        o = ["true"] if rate.get("counter") else []
        if "counterMax" in rate: o.append(str(rate["counterMax"]))
        if "resetValue" in rate: o.append(str(rate["resetValue"]))
        q += "rate{%s}:" % ",".join(o) if o else "rate:"
    if dss: q += dss + ":"
    if use: q += "rollupUsage=%s:" % use
    q += metric
    a = ["%s=%s" % kv for kv in f.items() if kv[0] not in ng]; b = ["%s=%s" % kv for kv in f.items() if kv[0] in ng]
    if a or b: q += "{" + ",".join(a) + "}"
    if b: q += "{" + ",".join(b) + "}"
    path = "/api/query?start=%d&end=%d&m=%s" % (s, e, q)
    if ms: path += "&msResolution=true"
    return g.http("GET", path, None, slot, r.choice((HTTP, HTTP2)), m)

def loose_tags(g):
    """Take a tag away from some series."""
    seen = set(json.dumps([s[0], s[1]], sort_keys=True) for s in g.series)
    for i, s in enumerate(g.series):
        ks = [k for k in s[1] if k != "_field"]
        if len(ks) > 1 and g.r.random() < 0.2:
            t = dict(s[1]); t.pop(g.r.choice(ks))
            k = json.dumps([s[0], t], sort_keys=True)
            if k not in seen: seen.add(k); g.series[i] = (s[0], t, s[2])

W_MAINT = {"append": 3, "gc": 1, "log": 1, "rollup": 0.7, "stat": 0.3, "sleep": 3, "long": 2, "nap": 2}

def elsewhere(g, n, w):
    """Writers and their queries in another range of time."""
    keep = g.pool, g.cursor, g.wall, g.maxday
    g.pool, g.cursor, g.wall, g.maxday = g.__dict__.setdefault("pool2", {}), g.__dict__.setdefault("cursor2", {}), g.wall - 9 * DAY, 1
    ops = g.mix_client(n, w)
    g.pool, g.cursor, g.wall, g.maxday = keep
    return ops

def gen_C16(seed):
    g = begin("C16", seed, uni={"ns": random.Random(seed).choice((1, 3, 4, 6, 8))}, p_ms=0.25); r = g.r
    if r.random() < 0.4: loose_tags(g)
    g.p_dup = r.choice((0, 0.1, 0.25)); g.p_ooo = r.choice((0, 0.1, 0.3))
    g.step = r.choice(((2, 2, 4, 10, 60), (2, 60, 600), (60, 60, 3600)))
    uneven(g, 0.15)
    conf = g.conf(); varied = r.random() < 0.5
    nl = r.choice((1, 1, 2, 2, 3))
    w = {"put": 10, "telnet": 2, "nap": 2, "sleep": 0.5, "append": 0.3, "reconn": 0.3}
    for li in range(nl):
        if li and varied: conf = g.conf()
        nw = r.choice((1, 2, 2)) if li == 0 or r.random() < 0.6 else 0
        cl = [g.mix_client(r.choice((4, 8, 14)), w) for _ in range(nw)]
        if nw: cl = spread(g, cl); nw = len(cl)
        first = [g.op("join", list(range(nw)))] if nw else []
        for _ in range(r.choice((1, 2, 3))):
            ops = list(first)
            for _ in range(r.choice((3, 6, 10))):
                x = r.random()
                if x < 0.75: ops.append(agg_op(g))
                elif x < 0.85: ops.append(g.query_op())
                elif x < 0.95: ops.append(g.sleepu(r.choice((50, 5000, 50000, 2000000, 30000000))))
                else: ops.append(g.op("close", [0, 0]))
                prev = [o for o in ops if (o.get("m") or {}).get("t") == "agg"]
                if prev and r.random() < 0.2: ops.append(again(g, r.choice(prev)))
            cl.append(ops)
        if r.random() < 0.8:
            cl.append(list(first) + g.mix_client(r.choice((3, 6, 10)), W_MAINT))
        if r.random() < 0.5: cl.append(elsewhere(g, r.choice((4, 8)), {"put": 8, "telnet": 1, "q": 2, "nap": 2, "sleep": 1}))
        ctl = [g.op("join", list(range(len(cl))))] + g.query_all(9) + [agg_op(g, 9) for _ in range(3)] + g.stop_ops([], r.random() < 0.3)
        g.life(cl + [ctl], conf, next_params(g, li == 0))
    return g.plan()

def again(g, o):
    """The same request once more."""
    g.oid += 1
    rid = "r%d" % g.oid
    m = dict(o["m"], rid=rid)
    a = list(o["a"]); a[3] = a[3].replace("X-Request-ID: %s\r\n" % o["m"]["rid"], "X-Request-ID: %s\r\n" % rid)
    return {"id": g.oid, "k": "http", "a": a, "b": list(o.get("b", [])), "m": m}

# ---------------------------------------------------------------- C17 clock jumps
JUMPS = (1, 5, 30, 120, 700, 4000, 8000, DAY, 3 * DAY, 40 * DAY)

def jump_ops(g):
    r = g.r; ops = []
    for _ in range(r.choice((1, 1, 2, 3, 5))):
        ops.append(g.sleepu(r.choice((100, 20000, 500000, 3000000, 30000000, 200000000)) + r.randrange(1000)))
        d = (r.choice(JUMPS) * 1000 + r.randrange(1000)) * r.choice((1, -1))
        ops.append(g.op("jump", [d]))
        if r.random() < 0.3: ops += [g.sleepu(r.choice((100, 500000, 20000000))), g.op("jump", [-d])]
    return ops

def gen_C17(seed):
    g = begin("C17", seed); r = g.r
    conf = g.conf()
    w = weights(g, W_CRASH, ("put", "q", "append"))
    nl = r.choice((1, 2, 2, 3, 4))
    if r.random() < 0.15:                                   # is everything still flushed periodically?
        w["append"] = 0
        nc = r.choice((1, 2, 3)); fr = FREQ[conf["append.log.flush.frequency"]]
        cl = [g.mix_client(r.choice((4, 8, 14)), w) for _ in range(nc)] + [jump_ops(g)]
        g.life(cl + [[g.op("join", list(range(nc + 1))), g.sleep(1000 * (2 * fr + 200)), g.op("end", [])]], conf, g.sched())
        g.life([g.query_all(9) + g.stop_ops([])], dict(conf), next_params(g, False))
        return g.plan(periodic=2 * fr + 150)
    for li in range(nl):
        par = next_params(g, li == 0)
        if li and r.random() < 0.4: par["wall_gap_ms"] = r.choice((1, -1)) * r.choice(JUMPS) * 1000
        nc = r.choice((1, 2, 3)); last = li == nl - 1
        cl = [g.mix_client(r.choice((4, 8, 14)), w) for _ in range(nc)]
        if li and r.random() < 0.8: cl.append(g.query_all(9))
        n = len(cl)
        cl.append(jump_ops(g))
        delay = g.sleepu(r.choice((2000, 100000, 500000, 3000000, 30000000, 300000000)) + r.randrange(1000))
        x = r.random()
        if last: ctl = [g.op("join", list(range(n + 1)))] + g.query_all(9) + g.stop_ops([], r.random() < 0.3)
        elif x < 0.3: ctl = g.stop_ops(list(range(n)), r.random() < 0.3)
        elif x < 0.5: ctl = [delay] + g.stop_ops([], r.random() < 0.3)
        elif x < 0.75: ctl = [g.op("join", list(range(n))), g.admin("append", 9, {"flush": 1}), kill_op(g), g.sleep(60000), g.op("end", [])]
        else: ctl = [delay, kill_op(g), g.sleep(400000), g.op("end", [])]
        g.life(cl + [ctl], dict(conf), par)
    return g.plan()

# ---------------------------------------------------------------- retention
def gen_C10(seed):
    g = begin("C10", seed, maxday=0); r = g.r
    g.maxday = r.choice((4, 8, 12)); g.p_day = r.choice((0.1, 0.25, 0.5)); g.future = r.choice((0, 0, 2))
    if r.random() < 0.5: g.past, g.future = 1, 0
    keep = r.choice((1, 2, 2, 3, 5, 9))
    fr, th, ar = r.choice((5, 20, 60)), r.choice((1, 2)), r.choice((10, 60, 600))
    conf = g.conf(**{"tsdb.retention.threshold": "%dd" % keep, "tsdb.flush.frequency": "%ds" % fr, "tsdb.thrashing.threshold": "%dmin" % th, "ts.archive.threshold": "%ds" % ar})
    w = weights(g, W_CRASH, ("put", "q", "append")); w["sleep"] = 5; w["long"] = 3
    nl = r.choice((2, 2, 3, 4))
    mc = r.random() < 0.5
    for li in range(nl):
        par = next_params(g, li == 0)
        if mc: par["memcheck"] = 1
        rest = [g.sleep(1000 * (fr * (g.maxday + 10) + 2 * 60 * th + 3 * ar + 300))]
        if li == nl - 1:                                    # nothing is written any more
            rest += g.query_all(9)
            for o in rest[1:]: o["m"]["rest"] = 1
            cl = []
            if r.random() < 0.6:                            # what was in use must not stay for ever
                w2 = dict(w) if getattr(g, "past", 0) and r.random() < 0.6 else {k: (v if k in ("q", "sleep", "long") else 0) for k, v in w.items()}
                cl = [g.mix_client(r.choice((3, 8, 15)), w2) for _ in range(r.choice((1, 2)))]
                rest.insert(0, g.op("join", list(range(len(cl)))))
            g.life(cl + [rest + g.stop_ops([], r.random() < 0.3)], dict(conf), par)
            break
        nc = r.choice((1, 2, 3))
        cl = [g.mix_client(r.choice((6, 10, 20)), w) for _ in range(nc)]
        if li and r.random() < 0.8: cl.append(g.query_all(9))
        n = len(cl)
        delay = g.sleep(r.choice((2, 60, 150, 300, 600)) * 1000 + r.randrange(20000))
        x = r.random()
        if x < 0.5 or li == nl - 2: ctl = [g.op("join", list(range(n)))] + ([delay] if r.random() < 0.5 else []) + g.stop_ops([], r.random() < 0.3)
        elif x < 0.7: ctl = [g.op("join", list(range(n))), g.admin("append", 9, {"flush": 1}), delay, kill_op(g, 0.5), g.sleep(600000), g.op("end", [])]
        else: ctl = [delay, kill_op(g, 0.5), g.sleep(600000), g.op("end", [])]
        g.life(cl + [ctl], dict(conf), par)
    return g.plan(keep=keep)

# ---------------------------------------------------------------- C06 checkpoints
def cp_client(g, c, kind, nops, w):
    """A client that owns a channel and sends its points and checkpoints over one connection."""
    r = g.r
    chan = "L%d:ch%d" % (c // 2, c)
    ser = [s for s in g.series if (kind == "influx") == s[2]] or None
    if ser is None: kind = "http"
    ops = []
    def cp():
        g.ncp[chan] = n = g.ncp.get(chan, 0) + 1
        return [chan, "%dx%d" % (n, n)]
    for _ in range(nops):
        x = r.random()
        if x < 0.55:
            pts = [g.point(r.choice(ser) if ser else None) for _ in range(r.choice((0, 1, 1, 3, 8)))]
            k = cp() if r.random() < 0.6 or not pts else None
            tail = "_cp %s:%s\n" % tuple(k) if k else ""
            m = {"pts": pts}
            if k: m["cp"] = k
            if kind == "http":
                if pts and "_field" in pts[0][1]: pts[:] = [p for p in pts if "_field" in p[1]]; body, path = "".join(g.line_influx([p]) + "\n" for p in pts), "/api/write"
                else: pts[:] = [p for p in pts if "_field" not in p[1]]; body, path = "".join(g.line_put(p) + "\n" for p in pts), "/api/put"
                m["t"] = "put"
                ops.append(g.http("POST", path, body + tail, 0, HTTP, m))
            else:
                text = "".join((g.line_influx([p]) if kind == "influx" else g.line_put(p)) + "\n" for p in pts) + tail
                m.update({"t": "tput", "slot": 5})
                ops.append(g.op("send", [5, INFLUX if kind == "influx" else TELNET, text], [2], m))
                if kind == "telnet" and r.random() < 0.5: ops.append(g.op("tbar", [5, TELNET, g.tmo], (), {"t": "tbar", "slot": 5}))
        elif x < 0.72: ops.append(cpq_op(g, 1, "L%d" % (c // 2) if r.random() < 0.3 else None))
        elif x < 0.8: ops.append(g.query_op(slot=1))
        else: ops += g.mix_client(1, w)
    if kind == "telnet": ops.append(g.op("tbar", [5, TELNET, g.tmo], (), {"t": "tbar", "slot": 5}))
    return ops

def cpq_op(g, slot, leader=None, rest=False):
    m = {}
    if leader: m["leader"] = leader
    if rest: m["rest"] = 1
    return g.admin("cp" + ("&leader=" + leader if leader else ""), slot, m)

W_CP = {"nap": 4, "sleep": 4, "long": 0.5, "append": 0.5, "gc": 0.2, "log": 0.1}

def gen_C06(seed):
    g = begin("C06", seed); r = g.r
    g.ncp = {}
    fr = r.choice((1, 2, 5, 20, 60))
    conf = g.conf(**{"tsdb.flush.frequency": "%ds" % fr, "append.log.flush.frequency": r.choice(("5s", "60s", "5min", "5min", "1h")), "timer.thread.count": r.choice((1, 1, 2, 3))})
    nl = r.choice((1, 2, 2, 3, 4))
    kinds = [r.choice(("http", "telnet", "telnet", "influx")) for _ in range(r.choice((1, 1, 2, 3)))]
    for li in range(nl):
        par = next_params(g, li == 0)
        if li and r.random() < 0.2: par["wall_gap_ms"] = -r.choice((1, 60, 4000, 90000)) * 1000
        last = li == nl - 1
        if li and not last and r.random() < 0.15:                       # killed while starting
            y = r.random()
            if y < 0.4: par["crash_step"] = r.choice((1000, 10000, 50000, 150000, 400000)) + r.randrange(10000)
            elif y < 0.6: par["crash_op_map"] = r.choice((1, 4, 10, 30, 80)) + r.randrange(0, 12)
            else: par["crash_op_file"] = r.randrange(1, 60); par["crash_torn"] = r.randrange(2)
        cl = [cp_client(g, c, k, r.choice((4, 8, 14)), W_CP) for c, k in enumerate(kinds)]
        if r.random() < 0.3: cl[r.randrange(len(cl))].insert(0, g.op("jump", [r.choice((-1, 1)) * r.choice((1, 60, 4000, 90000)) * 1000]))
        if li: cl.append([cpq_op(g, 9)] + g.query_all(9) + [cpq_op(g, 9)])
        n = len(cl)
        x = r.random()
        rest = [g.op("join", list(range(n)))] + ([g.sleep(1000 * (3 * fr + 120)), cpq_op(g, 9, None, True)] if r.random() < 0.5 else [cpq_op(g, 9)])
        delay = g.sleepu(r.choice((100000, 500000, 3000000, 10000000, 30000000, 100000000)) + r.randrange(1000))
        if last: ctl = rest + g.query_all(9) + g.stop_ops([])
        elif x < 0.2: ctl = rest + g.stop_ops([], r.random() < 0.3)
        elif x < 0.3: ctl = [delay] + g.stop_ops([], r.random() < 0.3)
        elif x < 0.4: ctl = [delay] + g.stop_ops([], r.random() < 0.3)[:-1] + [kill_op(g), g.sleep(FAR)]
        elif x < 0.55: ctl = rest + [g.op("end", [])]
        elif x < 0.7: ctl = rest + [g.sleepu(r.randrange(1000, 2000000 * fr)), kill_op(g), g.sleep(60000), g.op("end", [])]
        else: ctl = [delay, cpq_op(g, 9), kill_op(g)] + [o for _ in range(r.choice((1, 4, 12))) for o in (cpq_op(g, 9), g.sleepu(r.choice((1000, 300000, 2000000))))] + [g.sleep(60000), g.op("end", [])]
        g.life(cl + [ctl], dict(conf), par)
    return g.plan()

# ---------------------------------------------------------------- streams cut at arbitrary places
def stream_ops(g, slot, port, npts, cuts, nver=0, extra=()):
    """A byte stream of lines sent in pieces that ignore line ends; every line's write belongs to the piece that completes it."""
    r = g.r
    items = []                                  # (text, [points])
    for _ in range(npts):
        if port == INFLUX:
            ser = [s for s in g.series if s[2]]
            if not ser: break
            s = r.choice(ser); pts = [g.point(s)]
            for s2 in ser:                      # several fields of one line
                if s2[0] == s[0] and s2 is not s and {k: v for k, v in s2[1].items() if k != "_field"} == {k: v for k, v in s[1].items() if k != "_field"} and r.random() < 0.5:
                    pts.append([s2[0], s2[1], pts[0][2], g.value()])
            items.append((g.line_influx(pts), pts))
        else:
            ser = [s for s in g.series if not s[2]]
            if not ser: break
            p = g.point(r.choice(ser)); items.append((g.line_put(p), [p]))
    for t in extra: items.insert(r.randrange(len(items) + 1), (t, []))
    for _ in range(nver): items.insert(r.randrange(len(items) + 1), ("version", "v"))
    if not items: return [], 0
    text = ""; ends = []
    for t, pts in items:
        text += t + "\n"; ends.append((len(text), pts))
    cut = sorted(set(r.randrange(1, len(text) + 1) for _ in range(cuts)) | set([len(text)]))
    ops = []; a = 0
    for c in cut:
        pts = [p for e, ps in ends if a < e <= c and ps != "v" for p in ps]
        nv = sum(1 for e, ps in ends if a < e <= c and ps == "v")
        ops.append(g.op("send", [slot, port, text[a:c]], [2], {"t": "tput", "pts": pts, "slot": slot, "vis": 250, "nv": nv}))
        if r.random() < 0.4: ops.append(g.sleepu(r.choice((1, 50, 500, 5000, 200000, 2000000))))
        a = c
    return ops, nver

def gen_C07(seed):
    g = begin("C07", seed, maxday=1, uni={"nm": 2 + seed % 3, "ns": 3, "infl": 0.4}); r = g.r
    g.p_hdr = r.choice((0, 0.1, 0.5)); g.p_zip = r.choice((0, 0, 0.3))
    conf = g.conf(**{"tcp.buffer.size": r.choice((None, None, "8kb", "64kb"))})
    par = g.sched(p_seg=r.choice((0.1, 0.5, 0.9, 1.0)), p_coalesce=r.choice((0, 0.2, 0.7)), net_delay_us=r.choice((20, 200, 2000, 20000)), seg_max=r.choice((2, 8, 40, 200, 1460)))
    if par["seg_max"] < 100: par.pop("p_bigdelay", None)
    flood = r.random() < 0.15                           # more at once than the server's buffer can take
    if flood: conf["tcp.buffer.size"] = "8kb"; g.buf = 8192; par["seg_max"] = r.choice((1460, 9000)); par["p_seg"] = r.choice((0, 0.1, 0.5))
    cl = []
    for c in range(r.choice((2, 3, 4, 6))):
        ops = []; kind = r.choice(("t", "t", "i", "h", "mix")); slot = 5
        if flood and c < 2:
            port = r.choice((TELNET, TELNET, INFLUX))
            o, nv = stream_ops(g, 4, port, r.choice((150, 250, 400)), r.choice((0, 0, 1, 3)), r.choice((0, 1)) if port == TELNET else 0, ["x" * r.choice((8000, 8186, 8187, 9000, 20000))] if r.random() < 0.3 else ())
            ops += o
            if r.random() < 0.3 and port == TELNET: ops.append(g.op("drain", [4, 60000], (), {"t": "tver", "slot": 4}))
        for _ in range(r.choice((2, 4, 7))):
            k = r.choice("tih") if kind == "mix" else kind
            if k == "t":
                slot = r.choice((5, 5, 6)); base = 20 if slot == 6 else 0
                o, nv = stream_ops(g, slot, TELNET, r.choice((1, 3, 10, 40)), r.choice((0, 1, 3, 8)), r.choice((0, 0, 1, 3)), r.choice(((), (), ("",), ("", "\r", ""), ("put x", "bogus command"))))
                ops += o
                if r.random() < 0.6 and o: ops.append(g.op("drain", [slot, 60000], (), {"t": "tver", "slot": slot}))
                x = r.random()
                if x < 0.2:                             # an incomplete line, then the connection goes away
                    p = g.point(r.choice([s for s in g.series if not s[2]] or g.series)); t = g.line_put(p)
                    ops.append(g.op("send", [slot, TELNET, t[: r.randrange(1, len(t) + 1)]], [2]))
                if x < 0.35: ops.append(g.op("close", [slot, 1 if r.random() < 0.3 else 0]))
            elif k == "i":
                o, nv = stream_ops(g, 7, INFLUX, r.choice((1, 3, 10, 40)), r.choice((0, 1, 3, 8)), 0, r.choice(((), (), ("",), ("# note", ""), ("x", "bad line here"))))
                ops += o
                x = r.random()
                if x < 0.2 and o:
                    ser = [s for s in g.series if s[2]]
                    if ser: t = g.line_influx([g.point(r.choice(ser))]); ops.append(g.op("send", [7, INFLUX, t[: r.randrange(1, len(t) + 1)]], [2]))
                if x < 0.35: ops.append(g.op("close", [7, 1 if r.random() < 0.3 else 0]))
            else:
                x = r.random()
                if x < 0.6: ops.append(g.put_op(0, [g.point() for _ in range(r.choice((1, 10, 60)))]))
                elif x < 0.8: ops.append(g.query_op())
                else:                                   # a request cut by the client itself
                    o = g.put_op(1); req = o["a"][3]; n = r.randrange(1, len(req))
                    ops.append(g.op("send", [1, o["a"][1], req[:n]], [2])); ops.append(g.sleepu(r.choice((1, 1000, 100000))))
                    if r.random() < 0.3: ops.append(g.op("close", [1, r.randrange(2)]))
                    else:
                        ops.append(g.op("send", [1, o["a"][1], req[n:]], [2], {"t": "sent"}))
                        ops.append({"id": o["id"], "k": "recvhttp", "a": [1, g.tmo], "m": dict(o["m"], since=ops[-1]["id"])})
                        ops.append(g.op("close", [1, 0]))
                if r.random() < 0.1: ops.append(g.op("close", [0, r.randrange(2)]))
            if r.random() < 0.3: ops.append(g.sleepu(r.choice((50, 5000, 300000))))
        cl.append(ops)
    ctl = [g.op("join", list(range(len(cl)))), g.sleep(300000)] + g.query_all(9)
    if flood:                                           # the answers above may be too large
        for m, tags in sorted(set((s[0], tuple(sorted((k, v) for k, v in s[1].items() if k != "_field"))) for s in g.series)):
            ctl.append(g.query_op(m, dict(tags), g.window(True), 9))
    ctl += g.stop_ops([])
    g.life(cl + [ctl], conf, par)
    return g.plan()

# ---------------------------------------------------------------- C08 HTTP responses
def misc_http(g, slot):
    r = g.r
    x = r.randrange(14)
    G = lambda path, st=None: g.http("GET", path, None, slot, r.choice((HTTP, HTTP2)), {"t": "misc", **({"status": st} if st else {})})
    if x == 0: return G("/api/version", [200])
    if x == 1: return G("/api/stats", [200, 413])
    if x == 2: return G("/api/aggregators", [200])
    if x == 3: return G("/api/config/filters", [200])
    if x == 4: return G("/no/such/path", [404])
    if x == 5: return g.http("POST", "/no/such", "x=1", slot, None, {"t": "misc", "status": [404]})
    if x == 6: return g.admin("ping", slot)
    if x == 7: return G("/api/suggest?type=metrics&q=*&max=5", [200])
    if x == 8: return G("/api/query?start=abc&m=none:nosuch%s" % r.choice(("", "{host=*}")))
    if x == 9: return G("/api/query?start=%d&m=%s" % (g.wall - 9000, r.choice(("sum:1h-avg:", "avg:rate:", "none:10s-max:", "max:30s-sum:")) + r.choice(g.metrics)), [200])
    if x == 10: return G("/api/config", [200])
    if x == 11: return g.http("POST", "/api/query", r.choice(("{", "{}", "[]", '{"start":1}', '{"start":%d,"queries":[{"metric":"%s","aggregator":"avg","downsample":"1m-avg"}]}' % (g.wall - 9000, r.choice(g.metrics)))), slot, None, {"t": "misc"})
    if x == 12: return G("/", None)
    return suggest_op(g, slot)

def gen_C08(seed):
    g = begin("C08", seed, maxday=1, uni={"infl": 0.2}); r = g.r
    conf = g.conf(**{"tcp.connection.idle.timeout": r.choice((None, None, "1min"))})
    g.p_hdr = r.choice((0, 0.1, 0.5)); g.p_zip = r.choice((0, 0, 0.3))
    par = g.sched(sndbuf=r.choice((16, 64, 300, 2000, 65536)), p_seg=r.choice((0, 0.3, 0.9)))
    if par["sndbuf"] < 2000 or par.get("seg_max", 1460) < 100: par.pop("p_bigdelay", None)
    cl = []
    for c in range(r.choice((2, 3, 4, 6))):
        ops = []; slot = 0
        rude = r.random() < 0.35
        if r.random() < 0.35: ops.append(g.op("slow", [slot, HTTP, r.choice((200, 2000, 20000))]))
        for _ in range(r.choice((4, 8, 14))):
            x = r.random()
            if rude and x < 0.35:
                o = r.choice((lambda: misc_http(g, 3), lambda: g.query_op(slot=3), lambda: g.put_op(3)))()
                req = o["a"][3]
                if r.random() < 0.4: req = req[: r.randrange(1, len(req) + 1)]
                ops.append(g.op("send", [3, o["a"][1], req], [2], {"t": "rude", "pts": o["m"].get("pts", [])}))
                ops.append(g.sleepu(r.choice((1, 100, 2000, 50000))))
                ops.append(g.op("close", [3, r.randrange(2)]))
            elif x < 0.45: ops.append(g.put_op(slot, [g.point() for _ in range(r.choice((1, 8, 40, 80)))]))
            elif x < 0.7: ops.append(g.query_op(slot=slot))
            elif x < 0.92: ops.append(misc_http(g, slot))
            elif x < 0.935 and g.buf < 70000:           # a request larger than the server's buffer; the connection is of no use afterwards
                n = g.buf + r.choice((-8, -7, 0, 60, 3000))
                o = g.http("POST", "/api/put", "", 8, None, {"t": "misc", "status": [413]})
                h = o["a"][3][:-4].replace("Content-Length: 0", "Content-Length: %d" % n); line = "put m0 %d 1 host=a\n" % g.wall
                h += "\r\n\r\n"; body = (line * (n // len(line) + 1))[: n - len(h)]
                o["a"][3] = h.replace("Content-Length: %d" % n, "Content-Length: %d" % len(body)) + body
                if len(o["a"][3]) >= g.buf - 8: ops += [o, g.op("close", [8, r.randrange(2)])]
            elif x < 0.945:                            # after either of these the server may close the connection
                if r.random() < 0.5:
                    o = g.http("POST", "/api/put", "", 8, None, {"t": "misc", "status": [411]})
                    o["a"][3] = o["a"][3].replace("Content-Length: 0", "Content-Length: -%d" % r.choice((1, 7, 100, 1 << 31)))
                else:
                    o = r.choice((lambda: misc_http(g, 8), lambda: g.query_op(slot=8), lambda: g.put_op(8)))()
                    o["a"][3] = o["a"][3].replace("Host: sim", "Connection: close\r\nHost: sim")
                ops += [o, g.op("close", [8, r.randrange(2)])]
            elif x < 0.95: ops.append(g.op("close", [slot, r.randrange(2)]))
            elif x < 0.97: slot = 1 - slot
            else: ops.append(g.sleepu(r.choice((50, 5000, 200000, 70000000))))
        cl.append(ops)
    ctl = [g.op("join", list(range(len(cl))))] + g.query_all(9) + g.stop_ops([])
    g.life(cl + [ctl], conf, par)
    return g.plan()

# ---------------------------------------------------------------- C14 malformed items and protocol equivalence
def bad_plain(g):
    r = g.r; m = r.choice(g.metrics); t = g.wall
    return r.choice(("put", "put ", "put %s" % m, "put %s " % m, "put %s %d" % (m, t), "put %s %d " % (m, t), "put %s x%d 1 host=a" % (m, t), "put %s %d abc host=a" % (m, t),
                     "put  %d 1 host=a" % t, "put %s -5 1 host=a" % m, "put %s %d  host=a" % (m, t), "put \"%s %d 1" % (m, t)))

def bad_influx(g):
    r = g.r; m = r.choice(g.metrics); t = g.wall
    return r.choice((m, m + " ", m + ",host=a", m + ",host=a ", m + ",host=a f", m + ",host=a f= %d" % t, m + ",host=a f=abc %d" % t, m + ",host=a f=1,g %d" % t, m + ",host=a f=1 abc", ",host=a f=1 %d" % t,
                     m + "\\", m + ",host=a\\", m + ",host=a f\\", m + ",host=a f=1,", " f=1 %d" % t))

def bad_json(g):
    r = g.r; m = r.choice(g.metrics); t = g.wall
    return r.choice(('{}', '{"metric":"%s"}' % m, '{"metric":"%s","timestamp":%d}' % (m, t), '{"metric":"%s","value":1,"tags":{"host":"a"}}' % m, '{"timestamp":%d,"value":1,"tags":{"host":"a"}}' % t,
                     '{"metric":"%s","timestamp":%d,"value":"abc","tags":{"host":"a"}}' % (m, t), '{"metric":"%s","timestamp":"abc","value":1}' % m, '{"metric":"","timestamp":%d,"value":1}' % t,
                     '{"metric":"%s","timestamp":%d,"value":1,"bogus":2}' % (m, t), '{"metric":"%s","timestamp":%d,"value":1,"tags":{"host":"a"' % (m, t), '{"metric":"%s","timestamp":%d,"value":' % (m, t), '{"metric', '{"metric":"%s","timestamp":%d,"value":1' % (m, t)))

def bad_put(g, slot):
    """One HTTP write request with at least one malformed item; everything else in it may or may not be stored."""
    r = g.r
    n = r.choice((0, 0, 1, 3))
    how = r.choice(("plain", "influx", "json"))
    if how == "influx":
        ser = [s for s in g.series if s[2]]
        pts = [g.point(r.choice(ser)) for _ in range(n)] if ser else []
        lines = [(g.line_influx([p]), 0) for p in pts]
        for _ in range(r.choice((1, 1, 2))): lines.insert(r.randrange(len(lines) + 1), (bad_influx(g), 1))
        body = "\n".join(t for t, b in lines) + r.choice(("\n", "\n", ""))
        return g.http("POST", "/api/write", body, slot, None, {"t": "put", "pts": pts, "status": [400], "badreq": 1})
    ser = [s for s in g.series if not s[2]]
    pts = [g.point(r.choice(ser)) for _ in range(n)] if ser else []
    if how == "plain":
        lines = [(g.line_put(p), 0) for p in pts]
        b = [bad_plain(g) for _ in range(r.choice((1, 1, 2)))]
        for t in b: lines.insert(r.randrange(len(lines) + 1), (t, 1))
        body = "\n".join(t for t, b in lines) + r.choice(("\n", "\n", ""))
        st = [400] if any(t.startswith("put ") for t in b) else [200, 400]     # a line that is not a put at all is skipped
        return g.http("POST", "/api/put", body, slot, None, {"t": "put", "pts": pts, "status": st, "badreq": 1})
    a = [g.json_put([p]).strip("[]") for p in pts]
    a.insert(r.randrange(len(a) + 1), bad_json(g))
    body = a[0] if len(a) == 1 and r.random() < 0.5 else "[" + ",".join(a) + "]"
    return g.http("POST", "/api/put", body, slot, None, {"t": "put", "pts": pts, "status": [400], "badreq": 1})

def gen_C14(seed):
    g = begin("C14", seed, maxday=1, uni={"nm": 2 + seed % 2, "ns": 2, "infl": 0.4, "long": 0.1}); r = g.r
    g.p_unit = r.choice((0, 0, 0.1, 0.5)); g.p_when = r.choice((0, 0, 0.1, 0.5)); g.p_zip = r.choice((0, 0, 0.2, 0.5))
    g.p_style = r.choice((0, 0.2, 0.6))
    if g.p_style and r.random() < 0.6:           # tag values that JSON may leave unquoted
        for i, (m, t, inf) in enumerate(g.series):
            k = r.choice([k for k in t if k != "_field"] or [None])
            if not k: continue
            n = dict(t, **{k: r.choice(("7", "42", "10.5", "true", "false", "u_v"))})
            if all(n != s[1] or m != s[0] for s in g.series): g.series[i] = (m, n, inf)
    conf = g.conf()
    cl = []
    for c in range(r.choice((1, 2, 3))):
        ops = []
        for _ in range(r.choice((6, 10, 18))):
            x = r.random()
            if x < 0.25: ops.append(bad_put(g, 0))
            elif x < 0.3: ops.append(g.bad_pack(0))
            elif x < 0.55: ops.append(g.put_op(0, how=r.choice(("json", "plain"))))
            elif x < 0.65: ops += stream_ops(g, 5, TELNET, r.choice((1, 4, 10)), r.choice((0, 0, 2)), 0, [bad_plain(g) for _ in range(r.choice((0, 1, 3)))])[0] + [g.op("tbar", [5, TELNET, g.tmo], (), {"t": "tbar", "slot": 5})]
            elif x < 0.75: ops += stream_ops(g, 7, INFLUX, r.choice((1, 4, 10)), r.choice((0, 0, 2)), 0, [bad_influx(g) for _ in range(r.choice((0, 1, 3)))])[0]
            elif x < 0.95: ops.append(g.query_op())
            else: ops.append(g.sleepu(r.choice((50, 5000, 300000))))
        cl.append(ops)
    ctl = [g.op("join", list(range(len(cl)))), g.sleep(300000)] + g.query_all(9) + [suggest_op(g, 9) for _ in range(2)] + g.stop_ops([])
    g.life(cl + [ctl], conf, g.sched())
    return g.plan()

# ---------------------------------------------------------------- C11 progress
W_BUSY = {"put": 8, "telnet": 3, "q": 6, "nap": 4, "sleep": 1.5, "long": 0.4, "append": 1.5, "gc": 1, "log": 1, "stat": 0.7, "suggest": 0.5, "reconn": 1, "slot": 1, "cpq": 0.7, "rollup": 0.5}

def rude_ops(g, slot=3):
    """A client that goes away at any moment: in the middle of a request, before or while the answer is sent."""
    r = g.r
    o = r.choice((lambda: misc_http(g, slot), lambda: g.query_op(slot=slot), lambda: g.put_op(slot)))()
    req = o["a"][3]
    if r.random() < 0.4: req = req[: r.randrange(1, len(req) + 1)]
    ops = []
    if r.random() < 0.3: ops.append(g.op("slow", [slot, o["a"][1], r.choice((50, 500, 5000))]))
    ops.append(g.op("send", [slot, o["a"][1], req], [2], {"t": "rude", "pts": o["m"].get("pts", [])}))
    ops.append(g.sleepu(r.choice((1, 100, 2000, 50000, 1000000))))
    ops.append(g.op("close", [slot, r.randrange(2)]))
    return ops

FREQ = {"5s": 5, "20s": 20, "60s": 60, "5min": 300}

def burst(g, at, n, rounds):
    """Many connections that all want something at the same time, again and again."""
    r = g.r
    port = r.choice((TELNET, HTTP, HTTP))
    text = "version\n" if port == TELNET else "GET /api/version HTTP/1.1\r\nHost: sim\r\nContent-Length: 0\r\n\r\n"
    ops = [g.op("connect", [20 + i, port]) for i in range(n)] + [g.sleep(at)]
    for _ in range(rounds):
        ops += [g.op("send", [20 + i, port, text], [2], {"t": "rude", "pts": []}) for i in range(n)]
        ops.append(g.sleepu(r.choice((1, 50, 300, 1000, 5000))))
    return ops

def gen_C11(seed):
    g = begin("C11", seed, maxday=1 + seed % 2); r = g.r
    kill = r.random() < 0.3                                 # is everything flushed periodically?
    conf = g.conf(**{"tcp.connection.idle.timeout": r.choice((None, None, "1min")), "tcp.responders.queue.size": r.choice((None, 2, 4, 16))})
    w = weights(g, W_BUSY)
    nc = r.choice((2, 3, 5, 8))
    cl = []
    for c in range(nc):
        ops = []
        for o in g.mix_client(r.choice((4, 8, 14)), w):
            ops.append(o)
            if r.random() < 0.12: ops += rude_ops(g)
            if r.random() < 0.06: ops += stream_ops(g, 7, INFLUX, r.choice((1, 4, 10)), r.choice((0, 2)))[0]
        cl.append(ops)
    if kill:
        ctl = [g.op("join", list(range(nc))), g.sleep(1000 * (2 * FREQ[conf["append.log.flush.frequency"]] + 200)), g.op("end", [])]
        g.life(cl + [ctl], conf, g.sched())
        g.life([g.query_all(9) + g.stop_ops([])], dict(conf), next_params(g, False))
        return g.plan(periodic=2 * FREQ[conf["append.log.flush.frequency"]] + 150)
    ctl = []
    if r.random() < 0.25:                                   # asked to stop while every queue is full
        conf["tcp.responders.queue.size"] = r.choice((2, 2, 4)); conf["http.responders.per.listener"] = conf["tcp.responders.per.listener"] = 1
        if r.random() < 0.7: cl = cl[: r.choice((0, 1, 2))]
        nb = r.choice((1, 1, 2)); n = r.choice((6, 12, 20)); par = g.sched()
        cl += [burst(g, 3000, n, r.choice((2, 5, 12))) for _ in range(nb)]
        ctl += [g.sleep(3000), g.sleepu(r.choice((0, 200, 500, 1000, 3000, 10000)) + r.randrange(1000) + par.get("net_delay_us", 0))] + g.stop_ops([], r.random() < 0.7)
        g.life(cl + [ctl], conf, par)
        return g.plan()
    if r.random() < 0.5: ctl += [g.sleepu(r.choice((100, 2000, 20000, 100000, 500000, 3000000, 30000000)) + r.randrange(1000))] + g.stop_ops([], r.random() < 0.4)
    else: ctl += [g.op("join", list(range(nc))), g.sleep(r.choice((0, 1000, 300000)))] + g.query_all(9) + g.stop_ops([], r.random() < 0.3)
    g.life(cl + [ctl], conf, g.sched())
    return g.plan()

# ---------------------------------------------------------------- C20 resources run out for a while
R_MMAP, R_ACCEPT, R_EINTR, R_EMFILE, R_SEND = 1, 1 << 4, 1 << 5, 1 << 6, 1 << 7

def shortage(g):
    """For a while some calls fail."""
    r = g.r
    mask = 0
    while not mask:
        for b in (R_ACCEPT, R_EINTR, R_EMFILE, R_SEND):
            if r.random() < 0.5: mask |= b
    return [g.op("setp", ["res_fault_mask", mask]), g.op("setp", ["p_res_fault", r.choice((0.05, 0.3, 0.3, 0.8, 1 if mask & (R_EINTR | R_SEND) == 0 else 0.8))]),
            g.op("setp", ["res_fault_for_ms", r.choice((5, 100, 1000, 5000, 20000))], (), {"t": "shortage", "mask": mask})]

def gen_C20(seed):
    g = begin("C20", seed); r = g.r
    conf = g.conf()
    w = weights(g, W_BUSY)
    w["reconn"] = r.choice((1, 4, 8))
    nc = r.choice((2, 3, 5))
    cl = []
    for c in range(nc):
        ops = []
        for o in g.mix_client(r.choice((6, 12, 20)), w):
            ops.append(o)
            if r.random() < 0.05: ops += rude_ops(g)
        cl.append(ops)
    flt = []
    for _ in range(r.choice((1, 2, 3))): flt += [g.sleepu(r.choice((1, 1000, 100000, 2000000, 10000000)) + r.randrange(1000))] + shortage(g) + [g.sleep(r.choice((5, 200, 3000, 25000)))]
    cl.append(flt)
    ctl = [g.op("join", list(range(len(cl)))), g.sleep(70000)] + g.query_all(9)
    for p in (HTTP, HTTP2): ctl.append(g.put_op(8 if p == HTTP else 7, port=p))
    ctl += g.query_all(9) + g.stop_ops([], r.random() < 0.3)
    g.life(cl + [ctl], conf, g.sched())
    if r.random() < 0.5: g.life([g.query_all(9) + g.mix_client(4, W_MIX) + g.stop_ops([])], dict(conf), next_params(g, False))
    return g.plan()

# ---------------------------------------------------------------- C12 disk errors
DISK = {"write_enospc": 1, "write_eio": 2, "write_short": 4, "rename": 16}
def disk_fault(g, kinds=None, classes=None):
    """For a while file operations fail."""
    r = g.r
    ks = kinds or (list(DISK) if r.random() < 0.3 else r.sample(list(DISK), r.choice((1, 1, 2, 3))))
    mask = sum(DISK[k] for k in ks)
    cls = classes or (511 if r.random() < 0.5 else r.choice((1, 2, 4, 8, 16, 32, 128, 256, 1 + 2, 8 + 16)))
    return [g.op("setp", ["file_fault_mask", mask]), g.op("setp", ["file_fault_classes", cls]), g.op("setp", ["file_fault_sticky", r.randrange(2)]), g.op("setp", ["p_file_fault", r.choice((0.1, 0.5, 1, 1))]),
            g.op("setp", ["file_fault_for_ms", r.choice((5, 100, 1000, 5000, 20000, 100000))], (), {"t": "disk", "wal": 1} if cls == 8 else {"t": "disk"})]

W_DISK = dict(W_MIX); W_DISK.update({"put": 14, "append": 1, "sleep": 3})

def gen_C12(seed):
    g = begin("C12", seed, uni={"many": 0.12}); r = g.r
    uneven(g)
    conf = g.conf()
    w = weights(g, W_DISK)
    for li in range(r.choice((1, 1, 2))):                     # what is stored beforehand
        cl = spread(g, [g.mix_client(r.choice((4, 8, 14)), w) for _ in range(r.choice((1, 2)))])
        g.life(cl + [[g.op("join", list(range(len(cl))))] + g.stop_ops([], r.random() < 0.3)], dict(conf), next_params(g, li == 0))
    for li in range(r.choice((1, 1, 2))):
        nc = r.choice((1, 2, 3))
        cl = spread(g, [g.mix_client(r.choice((6, 10, 20)), w) for _ in range(nc)])
        wal = r.random() < 0.3                                # only the log of unfinished pages is affected
        flt = [g.sleepu(r.choice((100000, 1000000, 5000000)) + r.randrange(1000)), g.admin("append", 4)] if wal else []
        for _ in range(r.choice((1, 1, 2, 3))): flt += [g.sleepu(r.choice((1, 1000, 100000, 2000000, 10000000)) + r.randrange(1000))] + disk_fault(g, None, 8 if wal else None) + [g.sleep(r.choice((5, 200, 3000, 25000)))]
        cl.append(flt)
        n = len(cl)
        x = r.random() if not wal else r.uniform(0.4, 1)
        if x < 0.6: ctl = [g.op("join", list(range(n))), g.sleep(r.choice((0, 110000)))] + g.query_all(9) + g.stop_ops([], r.random() < 0.3)
        elif x < 0.8: ctl = [g.op("join", list(range(n))), g.op("end", [])]
        else: ctl = [g.sleep(r.choice((2000, 30000))), kill_op(g), g.sleep(60000), g.op("end", [])]
        g.life(cl + [ctl], dict(conf), next_params(g, False))
        g.lives[-1]["faulty"] = 1
    for li in range(2):
        cl = [g.query_all(9) + g.mix_client(r.choice((4, 8)), w)]
        g.life(cl + [[g.op("join", [0])] + g.query_all(9) + g.stop_ops([], r.random() < 0.3)], dict(conf), next_params(g, False))
    return g.plan()

# ---------------------------------------------------------------- C15 arbitrary bytes
TOKENS = ("\0", "\r\n", "\r\n\r\n", "\n", "%", "%zz", "%00", "%20", "{", "}", "[", "]", "\"", "\\", "=", ",", "|", "*", ":", "-", "-1", "0", "99999999999999999999", "4294967296", "1e999", "nan", "inf", "-inf", " ", "  ", ";", "?", "&", "m=", "start=",
          "rate{counter}", "rate:", "1h-avg", "0s-avg", "1x-avg", "all", "Content-Length: 5\r\n", "Content-Length: -5\r\n", "Content-Encoding: gzip\r\n", "Content-Encoding: deflate\r\n", "Connection: close\r\n", "X-Request-ID: " + "i" * 80 + "\r\n", "\xff", "\x80\x81", "GET ", "POST ", "put ", "_field", "version\n", "stats\n", "help\n")

def mutate(g, t):
    r = g.r
    for _ in range(r.choice((0, 1, 1, 2, 4, 10))):
        if not t: break
        i = r.randrange(len(t)); x = r.random()
        if x < 0.25: t = t[:i] + t[i + r.choice((1, 1, 2, 5, 20, 200)):]
        elif x < 0.55: t = t[:i] + r.choice(TOKENS) + t[i:]
        elif x < 0.7: t = t[:i] + chr(r.randrange(256)) + t[i + 1:]
        elif x < 0.8: n = r.choice((1, 4, 30)); t = t[:i] + t[i: i + n] * r.choice((2, 3, 40)) + t[i + n:]
        elif x < 0.88: t = t[:i] + chr(r.choice((65, 97, 48, 40))) * r.choice((30, 130, 260, 1030, 4100)) + t[i:]
        elif x < 0.94: t = t[:i]
        else: j = r.randrange(len(t)); i, j = min(i, j), max(i, j); t = t[j:] + t[i:j] + t[:i]
    return t

def queries(g, fill=True):
    """Many shapes of query. Filling gaps is only asked for over short ranges:
    the work grows with the range."""
    r = g.r; m = r.choice(g.metrics); s, e = g.window()
    f = g.filt(m); fs = "{" + ",".join("%s=%s" % kv for kv in f.items()) + "}" if f else ""
    agg = r.choice(("none", "avg", "sum", "min", "max", "count", "dev", "p50", "p75", "p99", "p999", "first", "last", "zimsum", "mimmin", "bogus", ""))
    ds = r.choice(("", "", "1h-avg:", "10s-sum:", "0all-sum:", "1d-count-none:", "1x-avg:", "10s:", "1m-last:"))
    ago = r.choice((s, s, "1h-ago", "2d-ago", "0", ""))
    if fill and r.random() < 0.3:
        ds = r.choice(("1m-max-zero:", "30s-p99-nan:", "5m-dev-null:", "500ms-min-zero:", "1ms-sum-nan:", "1s-avg-zero:"))
        e = min(e, s + (60 if ds[:2] in ("50", "1s") or ds[:3] == "1ms" else 7200) * g.unit)
        ago = s
    else: fill = False
    rt = r.choice(("", "", "", "rate:", "rate{counter,100,5}:", "rate{true,null}:", "rate{counter,dropResets}:"))
    if r.random() < 0.4:
        q = {"metric": m, "aggregator": agg, "tags": f}
        if ds: q["downsample"] = ds[:-1]
        if rt: q["rate"] = True
        b = {"start": s, "queries": [q] * r.choice((1, 1, 2))}
        if fill or r.random() < 0.7: b["end"] = e
        if r.random() < 0.5: b["msResolution"] = r.random() < 0.5
        return g.http("POST", "/api/query", json.dumps(b, separators=(",", ":")), 0, r.choice((HTTP, HTTP2)), {"t": "misc"})
    path = "/api/query?start=%s&%sm=%s:%s%s%s%s" % (ago, "end=%d&" % e if fill else r.choice(("end=%d&" % e, "")), agg, ds, rt, m, fs)
    return g.http("GET", path, None, 0, r.choice((HTTP, HTTP2)), {"t": "misc"})

def fuzz_ops(g, writes=False):
    r = g.r
    x = r.random()
    slot = r.choice((2, 3, 4))
    if writes and x < 0.4:
        o = r.choice((g.put_op, lambda s: bad_put(g, s)))(0)
        port, t = o["a"][1], mutate(g, o["a"][3])
        if not t.startswith("POST /api/put") and not t.startswith("POST /api/write"): t = o["a"][3]
    elif x < 0.55 and not writes:
        o = r.choice((lambda: misc_http(g, 0), lambda: queries(g, False), lambda: queries(g, False), lambda: g.put_op(0), lambda: bad_put(g, 0), lambda: g.bad_pack(0), lambda: lookup_op(g, 0), lambda: suggest_op(g, 0), lambda: g.admin(r.choice(("cfg", "cp", "gc", "log", "ping", "stat", "append", "rollup", "nosuch")), 0)))()
        port, t = o["a"][1], mutate(g, o["a"][3])
        if "stop" in t or "diedie" in t: t = "GET / HTTP/1.1\r\n\r\n"
    elif x < 0.8:
        port = TELNET
        t = mutate(g, "".join(r.choice((lambda: g.line_put(g.point()), lambda: bad_plain(g), lambda: "version", lambda: "stats", lambda: "help", lambda: "_cp a:b:1", lambda: "dropcaches"))() + "\n" for _ in range(r.choice((1, 3, 12)))))
    else:
        port = INFLUX
        t = mutate(g, "".join(r.choice((lambda: bad_influx(g), lambda: g.line_influx([g.point(s) for s in g.series if s[2]][:1] or [["m0", {"_field": "f", "host": "a"}, g.wall, 1.0]]), lambda: "# comment"))() + "\n" for _ in range(r.choice((1, 3, 12)))))
    t = t[:6000]
    if port != HTTP and r.random() < 0.03: i = r.randrange(len(t) + 1); t = t[:i] + "x" * r.choice((4000, 8190, 10000)) + t[i:]
    ops = [g.op("send", [slot, port, t], [2], {"t": "fuzz"})]
    y = r.random()
    if y < 0.4: ops.append(g.op("drain", [slot, r.choice((10, 200, 2000))]))
    elif y < 0.6: ops.append(g.sleepu(r.choice((1, 500, 20000))))
    if r.random() < 0.7: ops.append(g.op("close", [slot, r.randrange(2)]))
    return ops

def gen_C15(seed):
    g = begin("C15", seed, uni={"infl": 0.4}); r = g.r
    g.p_hdr = r.choice((0, 0.1, 0.5)); g.p_zip = 0.15
    conf = g.conf(**{"udp.server.enabled": r.choice((None, None, "true")), "tcp.connection.idle.timeout": r.choice((None, None, "1min"))})
    nl = r.choice((1, 1, 1, 2))
    for li in range(nl):
        cl = []
        if r.random() < 0.15:                           # more checkpoints than fit into an answer
            ops, n = [], r.choice((1, 3, 10))
            for i in range(r.choice((2, 5))):
                t = "".join("_cp %s%d:%s%d:%s\n" % ("l" * r.choice((1, 20)), r.randrange(n), "c" * r.choice((1, 30, 900)), r.randrange(40), "v" * r.choice((1, 30, 1500))) for _ in range(20))
                ops += [g.op("send", [3, TELNET, t[:6000]], [2], {"t": "fuzz"}), g.sleepu(r.choice((500, 2000000, 30000000))), g.admin("cp", 0, {"mayclose": 1})]
            cl.append(ops)
            conf["tcp.buffer.size"] = "8kb"; conf["tsdb.flush.frequency"] = r.choice(("1s", "5s"))
        for c in range(r.choice((1, 2, 3, 4))):
            ops = []
            for _ in range(r.choice((5, 12, 25))):
                x = r.random()
                if x < 0.5: ops += fuzz_ops(g)
                elif x < 0.6: ops += rude_ops(g, 3)
                elif x < 0.7: ops.append(queries(g)); ops[-1]["m"]["mayclose"] = 1
                elif x < 0.72: ops.append(g.bad_pack(2))
                elif x < 0.85: ops += g.mix_client(1, W_BUSY)
                elif x < 0.9 and "udp.server.enabled" in conf: ops.append(g.op("udp", [TELNET, 1, mutate(g, g.line_put(g.point(), ""))[:2000]], [2], {"t": "fuzz"}))
                else: ops.append(g.sleepu(r.choice((50, 5000, 500000, 61000000))))
            cl.append(ops)
        ctl = [g.op("join", list(range(len(cl)))), g.sleep(r.choice((0, 0, 20000, 400000)))] + g.query_all(9) + g.stop_ops([], r.random() < 0.3)
        g.life(cl + [ctl], dict(conf), next_params(g, li == 0, memcheck=1))
    return g.plan()

# ---------------------------------------------------------------- C21 nothing is left behind
def fine_http(g, slot):
    """A well-formed request of any kind."""
    r = g.r
    x = r.randrange(12)
    if x < 2: return g.put_op(slot) if not g.p_zip or r.random() < 0.8 else g.bad_pack(slot)
    if x < 4: return g.query_op(slot=slot)
    if x < 6: return agg_op(g, slot)
    if x == 6: return suggest_op(g, slot)
    if x == 7: return lookup_op(g, slot)
    if x == 8: return g.admin(r.choice(("cfg", "cp", "gc", "log", "ping", "stat", "append")), slot)
    return g.http("GET", r.choice(("/api/version", "/api/stats", "/api/aggregators", "/api/config/filters", "/api/config", "/no/such/path", "/", "/api/help")), None, slot, r.choice((HTTP, HTTP2)), {"t": "misc"})

def gen_C21(seed):
    g = begin("C21", seed, uni={"infl": 0.4}); r = g.r
    g.p_zip = r.choice((0, 0.2))
    conf = g.conf(**{"udp.server.enabled": r.choice((None, None, "true"))})
    w = weights(g, W_BUSY); w["rollup"] = 0
    cl = []
    for c in range(r.choice((1, 2, 3, 5))):
        ops = []
        for _ in range(r.choice((5, 12, 25))):
            x = r.random()
            if x < 0.25:                                # goes away at any moment
                o = fine_http(g, 3)
                req = o["a"][3]
                if r.random() < 0.4: req = req[: r.randrange(1, len(req) + 1)]
                if r.random() < 0.3: ops.append(g.op("slow", [3, o["a"][1], r.choice((50, 500, 5000))]))
                ops += [g.op("send", [3, o["a"][1], req], [2], {"t": "rude", "pts": o["m"].get("pts", [])}), g.sleepu(r.choice((1, 100, 2000, 50000, 1000000))), g.op("close", [3, r.randrange(2)])]
            elif x < 0.5: ops.append(fine_http(g, 0))
            elif x < 0.6: ops += stream_ops(g, r.choice((4, 5)), TELNET, r.choice((1, 4, 10)), r.choice((0, 2)))[0]
            elif x < 0.65: ops += stream_ops(g, r.choice((6, 7)), INFLUX, r.choice((1, 4, 10)), r.choice((0, 2)))[0]
            elif x < 0.88: ops += g.mix_client(1, w)
            elif x < 0.92: ops.append(g.op("close", [r.randrange(8), r.randrange(2)]))
            elif x < 0.935:                             # more than the server's buffer can take
                port = r.choice((HTTP, HTTP, TELNET, INFLUX)); n = g.buf + r.choice((-200, -7, 0, 1, 500, 9000)) if g.buf < 20000 else 9000
                t = "x" * n + "\n"
                if port == HTTP: t = "POST /api/put HTTP/1.1\r\nHost: sim\r\nContent-Length: %d\r\n\r\n" % len(t) + t
                ops.append(g.op("send", [3, port, t], [2], {"t": "fuzz"}))
                if r.random() < 0.5: ops.append(g.sleepu(r.choice((1, 100, 2000, 50000))))
                ops.append(g.op("close", [3, r.randrange(2)]))
            elif x < 0.97: ops += fuzz_ops(g, writes=True)
            else: ops.append(g.sleepu(r.choice((50, 5000, 500000, 61000000))))
        ops += [g.op("close", [k, r.randrange(2)]) for k in range(8)]
        cl.append(ops)
    ctl = [g.op("left", [0], (), {"t": "left0"}), g.op("join", list(range(len(cl)))), g.sleep(r.choice((100000, 100000, 400000))), g.op("left", [1], (), {"t": "left"})] + g.query_all(9) + g.stop_ops([], r.random() < 0.3)
    g.life(cl + [ctl], conf, g.sched())
    return g.plan()

LEVEL = {}
NOTE = {}
RULE = {}
ASSUME = {}
GEN = {k[4:]: v for k, v in list(globals().items()) if k.startswith("gen_") and len(k) == 7}

def generate(prop, seed):
    plan = GEN[prop](seed)
    if any(o["k"] == "http" and "put crowd " in o["a"][3] for l in plan["lives"] for c in l["clients"] for o in c["ops"]):
        for l in plan["lives"]:              # thousands of series every few seconds for hours are too many steps
            if l["conf"].get("append.log.flush.frequency", "5min") != "5min": l["conf"]["append.log.flush.frequency"] = "5min"
    return plan
