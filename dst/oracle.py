"""Reference model and judgement of histories."""
import json, re
from dst import agg

class V(object):
    """A violation: property, class (stable signature used by minimisation), text."""
    def __init__(self, cls, text, life=None, op=None):
        self.cls, self.text, self.life, self.op = cls, text, life, op
    def __repr__(self):
        return "%s: %s" % (self.cls, self.text)

# ------------------------------------------------------------------ HTTP
_st = re.compile(rb"^HTTP/1\.1 (\d\d\d) ([^\r\n]*)\r\n")

class Resp(object):
    __slots__ = ("status", "hdr", "body", "err")

def parse_http(raw):
    """Strict: status line, headers, Content-Length equal to the body's length."""
    x = Resp(); x.status = None; x.hdr = {}; x.body = b""; x.err = None
    m = _st.match(raw)
    if not m:
        x.err = "bad status line %r" % raw[:60]; return x
    x.status = int(m.group(1))
    k = raw.find(b"\r\n\r\n")
    if k < 0:
        x.err = "no end of headers"; return x
    for l in raw[m.end():k + 2].split(b"\r\n"):
        if not l: continue
        if b":" not in l:
            x.err = "bad header line %r" % l; return x
        a, b = l.split(b":", 1)
        a = a.strip().lower().decode("latin-1")
        if a in x.hdr:
            x.err = "header %s twice" % a; return x
        x.hdr[a] = b.strip().decode("latin-1")
    x.body = raw[k + 4:]
    cl = x.hdr.get("content-length")
    if cl is None or not cl.isdigit():
        x.err = "no Content-Length"; return x
    if int(cl) != len(x.body):
        x.err = "Content-Length %s but body of %d bytes" % (cl, len(x.body))
    return x

def skey(metric, tags):
    return (metric, tuple(sorted(tags.items())))

def match(filt, tags):
    for k, v in filt.items():
        if k not in tags: return False
        if v == "*": continue
        if not fits(v, tags[k]): return False
    return True

# one filter, in any of the forms of the API, against the value of a tag
def fits(f, v):
    x = re.match(r"(\w+)\((.*)\)$", f)
    if not x or x.group(1) not in ("literal_or", "iliteral_or", "not_literal_or", "not_iliteral_or", "wildcard", "iwildcard", "regexp"):
        if f.endswith("*"): return glob(f, v)
        return v in f.split("|")
    kind, arg = x.groups()
    if kind == "regexp": return re.fullmatch(arg, v) is not None
    if kind.startswith("not_"): return not fits(kind[4:] + "(" + arg + ")", v)
    if kind[0] == "i": arg, v = arg.lower(), v.lower()
    return glob(arg, v) if kind.endswith("wildcard") else v in arg.split("|")

def glob(p, v):
    return re.fullmatch(".*".join(re.escape(x) for x in p.split("*")), v) is not None

class Dup(Exception):
    pass

def _pairs(p):
    d = {}
    for k, v in p:
        if k in d: raise Dup(k)
        d[k] = v
    return d

class Wr(object):
    __slots__ = ("val", "life", "inv", "ack", "op", "t_ack", "must", "durable", "dead", "rej", "t0", "t_vis", "conn", "seq", "claim", "solid")

def fmt_pt(k, ts):
    return "%s{%s}@%d" % (k[0], ",".join("%s=%s" % x for x in k[1]), ts)

def show(k):
    return "{%s}%s" % (",".join("%s=%s" % x for x in sorted(k[0])), "+" + ",".join(sorted(k[1])) if k[1] else "")

INF = float("inf")
VIS = 60 * 10 ** 9          # an unacknowledged write that arrived must be visible after this

class Model(object):
    """Per-(series, timestamp) register over all lives of a plan."""
    def __init__(self, plan, hist):
        self.plan, self.h = plan, hist
        self.w = {}                 # (series, ts) -> [Wr]
        self.bysid = {}             # series -> {ts}
        self.queries = []           # (life, ev, meta, result|None, op)
        self.viol = []
        self.flushes = []           # (life, inv, res)
        self.stops = {}             # life -> inv of first stop request
        self.allser = {}
        self.bad = []
        self.big = []               # queries answered with 413
        self.seq = 0
        self.lists = []             # suggest and lookup answers
        self.aggs = []              # answers computed from points
        self.judged = 0             # of these, compared with the reference
        self.cps = {}               # channel -> checkpoints sent, in order: [text, life, inv, ack, writes before it]
        self.reports = []           # (life, ev, meta, {channel: text}, op)
        self.disk = {}              # life -> begin of the first disk fault
        self.hard = set()           # lives with disk faults that concern more than the log of unfinished pages
        self.short = {}             # life -> times (from, to) in which resources were short
        self.build()

    # ---------------------------------------------------------------- collecting the history
    def build(self):
        for li, l in enumerate(self.plan["lives"][:len(self.h.lives)]):
            for c in l["clients"]:
                for op in c["ops"]:
                    ev = self.h.lives[li].ev.get(op["id"])
                    if (op.get("m") or {}).get("t") == "stop" and ev is not None and ev.inv is not None:
                        self.stops[li] = min(ev.inv, self.stops.get(li, ev.inv))
                    if (op.get("m") or {}).get("t") == "disk" and ev is not None and ev.inv is not None:
                        self.disk[li] = min(ev.inv, self.disk.get(li, ev.inv))
                        if not op["m"].get("wal"): self.hard.add(li)
                    if (op.get("m") or {}).get("t") == "shortage" and ev is not None and ev.inv is not None:
                        self.short.setdefault(li, []).append((ev.t0, ev.t0 + op["a"][1] * 10 ** 6))
        for li, l in enumerate(self.plan["lives"]):
            if li >= len(self.h.lives): break
            lh = self.h.lives[li]
            for c in l["clients"]:
                tn = {}                                     # slot -> writes on the open telnet connection
                gen = {}                                    # slot -> number of the connection
                before = {}                                 # slot -> writes sent on that connection
                nver = {}                                   # slot -> version commands sent and not yet answered
                for op in c["ops"]:
                    m = op.get("m")
                    ev = lh.ev.get(op["id"])
                    if op["k"] == "close": nver.pop(op["a"][0], None); tn.pop(op["a"][0], None); gen[op["a"][0]] = gen.get(op["a"][0], 0) + 1
                    if not m or ev is None or ev.inv is None: continue
                    t = m["t"]
                    if t == "put":
                        resp = self.http(op, ev, li)
                        if m.get("since"):                  # sent by earlier operations, only the answer is read here
                            e0 = lh.ev.get(m["since"])
                            if e0 is None or e0.inv is None: continue
                            ev.inv = e0.inv; ev.t0 = e0.t0
                        ok = resp is not None and resp.err is None and resp.status in (200, 204)
                        for p in m["pts"]:
                            w = self.add(p, li, ev.inv, ev.res if ok else INF, op, ev); w.conn = op["id"]
                            if ok or "cp" in m: before.setdefault(op["a"][0], []).append(w)
                        if "cp" in m: self.cps.setdefault(m["cp"][0], []).append([m["cp"][1], li, ev.inv, ev.res if ok else INF, list(before.get(op["a"][0], ()))])
                    elif t == "tput":
                        if ev.ok is False:
                            tn.pop(m["slot"], None); continue
                        if op["id"] in lh.reconn and self.short.get(li):    # the old connection was hit
                            tn.pop(m["slot"], None); nver.pop(m["slot"], None)
                        if m.get("nv"): nver[m["slot"]] = nver.get(m["slot"], 0) + m["nv"]
                        lst = tn.setdefault(m["slot"], [])
                        for p in m["pts"]:
                            w = self.add(p, li, ev.inv, INF, op, ev)
                            w.conn = (li, c["id"], m["slot"], gen.get(m["slot"], 0))
                            if m.get("vis") and not self.reset(c, op, m["slot"]): w.t_vis = ev.t0 + m["vis"] * 10 ** 9
                            lst.append(w)
                        if "cp" in m: self.cps.setdefault(m["cp"][0], []).append([m["cp"][1], li, ev.inv, INF, list(lst), m["slot"], c["id"]])
                    elif t == "tbar":
                        lst = tn.get(m["slot"], [])
                        if ev.ok:
                            for cs in self.cps.values():
                                for x in cs:
                                    if x[1] == li and x[5:] == [m["slot"], c["id"]] and x[3] == INF: x[3] = ev.res
                            for w in lst:
                                if w.ack == INF: w.ack = ev.res; w.t_ack = ev.t1
                        elif ev.res is not None:
                            if ev.why == "timeout":
                                self.bad.append(V("no-answer", "telnet connection of client %d did not answer within the deadline (op %d)" % (c["id"], op["id"]), li, op["id"]))
                            tn.pop(m["slot"], None)
                    elif t == "tver":
                        if ev.ok and not self.stopping(li, ev):
                            n = ev.raw.count(b"}"); want = nver.pop(m["slot"], 0)
                            if n != want: self.bad.append(V("version-count", "client %d sent %d version commands on its telnet connection and got %d answers: %r (op %d)" % (c["id"], want, n, ev.raw[:200], op["id"]), li, op["id"]))
                        elif ev.ok is False and ev.why == "eof" and not self.stopping(li, ev):
                            self.bad.append(V("closed", "telnet connection of client %d closed by the server (op %d)" % (c["id"], op["id"]), li, op["id"]))
                    elif t == "rude":
                        for p in m["pts"]: self.add(p, li, ev.inv, INF, op, ev)
                    elif t == "udp":
                        arr = lh.udp.get(op["id"], ())
                        for p in m["pts"]:
                            for (sq, at) in arr:          # one write per copy that reached the server
                                w = self.add(p, li, sq, INF, op, ev); w.t0 = at; w.t_vis = at + VIS
                            if not arr: self.add(p, li, ev.inv, INF, op, ev).dead = True
                    elif t == "q":
                        self.queries.append((li, ev, m, self.parse_q(op, ev, li, m), op))
                    elif t == "stop":
                        if op["k"] == "http": self.http(op, ev, li, stop=True)
                    elif t in ("suggest", "lookup"):
                        self.lists.append((li, ev, m, self.http(op, ev, li), op))
                    elif t == "agg":
                        self.aggs.append((li, ev, m, self.http(op, ev, li), op))
                    elif t in ("admin", "misc", "http"):
                        x = self.http(op, ev, li)
                        if m.get("cmd", "").startswith("cp") and x is not None and not x.err and x.status == 200: self.parse_cp(li, ev, m, x, op)
                        if m.get("flush") and x is not None and x.status == 200:
                            self.flushes.append((li, ev.inv, ev.res))
            for (cl, slot, b) in lh.junk:
                if slot == 8: continue              # the rest of a request that was too large is taken for another request
                self.bad.append(V("extra-bytes", "client %d received bytes beyond its responses: %r" % (cl, b[:200]), li))
        for v in self.w.values():
            v.sort(key=lambda w: (w.life, w.inv))

    def add(self, p, li, inv, ack, op, ev):
        w = Wr(); w.val = float(p[3]); w.life = li; w.inv = inv; w.ack = ack; w.op = op["id"]; w.t_ack = ev.t1 if ack != INF else None
        w.durable = False; w.dead = False; w.rej = False; w.t0 = ev.t0; w.t_vis = None; w.conn = None; self.seq += 1; w.seq = self.seq; w.must = False; w.claim = None; w.solid = False
        k = skey(p[0], p[1])
        self.w.setdefault((k, p[2]), []).append(w)
        self.bysid.setdefault(k, set()).add(p[2])
        self.allser[k] = p[1]
        return w

    def reset(self, c, op, slot):
        """Is the connection of this slot later reset by the client (so that sent bytes may be lost)?
        A client that closes while answers are on their way to it resets the connection, too."""
        seen = False; unread = 0
        for o in c["ops"]:
            if o is op: seen = True
            if o["k"] == "close" and o["a"][0] == slot:
                if seen: return o["a"][1] == 1 or unread > 0
                unread = 0
            elif o["k"] == "drain" and o["a"][0] == slot: unread = 0
            elif o["k"] == "send" and o["a"][0] == slot: unread += (o.get("m") or {}).get("nv", 0)
        return False

    def stopping(self, li, ev):
        s = self.stops.get(li)
        return s is not None and (ev.res is None or ev.res > s)

    def faulty(self, li, ev):
        return li in self.disk and (ev.res is None or ev.res > self.disk[li])

    def damaged(self, li, ev):
        """May the stored data have been affected?"""
        return li in self.hard and self.faulty(li, ev)

    def hit(self, li, ev):
        """Did the operation take place, at least in part, while resources were short?"""
        return any(ev.t0 < b and (ev.t1 is None or a <= ev.t1) for (a, b) in self.short.get(li, ()))

    def http(self, op, ev, li, stop=False):
        """Parse a response; note protocol errors."""
        lh = self.h.lives[li]
        if ev.ok is None:
            return None                         # the life ended before an answer
        if not ev.ok:
            if ev.why == "timeout" and not self.stopping(li, ev):
                self.bad.append(V("no-answer", "request op %d got no complete response within %d s of virtual time" % (op["id"], op["a"][2] // 1000), li, op["id"]))
            elif ev.why == "garbage":
                self.bad.append(V("bad-response", "request op %d was answered with bytes that are not HTTP: %r" % (op["id"], ev.raw[:200]), li, op["id"]))
            elif ev.why in ("eof", "refused") and not self.stopping(li, ev) and not op["m"].get("mayclose") and not self.hit(li, ev) and not self.faulty(li, ev):
                self.bad.append(V("closed", "request op %d: connection %s by the server (%r)" % (op["id"], "closed" if ev.why == "eof" else "refused", ev.raw[:100]), li, op["id"]))
            return None
        x = parse_http(ev.raw)
        if x.err:
            self.bad.append(V("bad-response", "request op %d: %s" % (op["id"], x.err), li, op["id"]))
            return x
        rid = x.hdr.get("x-request-id")
        if rid != op["m"]["rid"]:
            self.bad.append(V("wrong-id", "request op %d has X-Request-ID %s, its response has %s" % (op["id"], op["m"]["rid"], rid), li, op["id"]))
        exp = op["m"].get("status")
        if exp is None and not self.stopping(li, ev): exp = [200, 204] if op["m"]["t"] in ("put", "q", "agg", "admin") else None
        if x.status == 413 and op["m"]["t"] in ("q", "agg"):
            self.big.append((op, li)); return x
        if exp and x.status not in exp and not op["m"].get("anystatus") and not self.faulty(li, ev):
            self.bad.append(V("bad-status", "request op %d (%s) answered with status %d: %r" % (op["id"], op["m"]["t"], x.status, x.body[:200]), li, op["id"]))
        return x

    def bufsize(self, li):
        return int(str(self.plan["lives"][li]["conf"].get("tcp.buffer.size", "512kb"))[:-2]) * 1024

    def check_big(self):
        """An answer may be refused as too large only when it may be larger than the server's network buffer."""
        for op, li in self.big:
            size = self.bufsize(li)
            need = 1000
            if op["m"].get("ds") and op["m"]["ds"][2]: continue
            for k, tss in self.bysid.items():
                if k[0] == op["m"].get("metric"): need += 300 + 45 * len(tss)
            if need < size // 2:
                self.bad.append(V("bad-status", "query op %d, whose answer has at most %d bytes, was refused as too large (status 413)" % (op["id"], need), li, op["id"]))

    def parse_q(self, op, ev, li, m):
        x = self.http(op, ev, li)
        if x is None or x.err or x.status != 200: return None
        try:
            a = json.loads(x.body.decode("latin-1"), object_pairs_hook=_pairs)
        except Dup as d:
            self.bad.append(V("duplicate", "query op %d returned %s twice" % (op["id"], d), li, op["id"])); return None
        except ValueError as e:
            self.bad.append(V("bad-json", "query op %d: response is not JSON (%s): %r" % (op["id"], e, x.body[:200]), li, op["id"])); return None
        res = {}
        try:
            for s in a:
                k = skey(s["metric"], s["tags"])
                if k in res:
                    self.bad.append(V("series-twice", "query op %d returned series %s twice" % (op["id"], k), li, op["id"])); return None
                res[k] = {int(t): float(v) for t, v in s["dps"].items()}
        except (KeyError, TypeError, AttributeError, ValueError) as e:
            self.bad.append(V("bad-json", "query op %d: unexpected response %r" % (op["id"], x.body[:200]), li, op["id"])); return None
        return res

    # ---------------------------------------------------------------- checkpoints
    def parse_cp(self, li, ev, m, x, op):
        try:
            got = {}
            for l in json.loads(x.body.decode("latin-1")):
                for c in l["channels"]:
                    k = "%s:%s" % (l["leader"], c["channel"])
                    if k in got: raise ValueError("%s twice" % k)
                    got[k] = c["checkpoint"]
            self.reports.append((li, ev, m, got, op))
        except (ValueError, KeyError, TypeError, AttributeError) as e:
            self.bad.append(V("bad-json", "request op %d for checkpoints: %s: %r" % (op["id"], e, x.body[:200]), li, op["id"]))

    def check_cps(self, out):
        """Reported checkpoints were sent, do not go back, and claim the writes sent before them."""
        last = {}                   # channel -> [(life, res, index)]
        for (li, ev, m, got, op) in sorted(self.reports, key=lambda x: (x[0], x[1].res)):
            for k, v in sorted(got.items()):
                idx = [i for i, c in enumerate(self.cps.get(k, ())) if c[0] == v and (c[1], c[2]) < (li, ev.res)]
                if not idx:
                    out.append(V("cp-unsent", "op %d reports checkpoint %s for channel %s, which was not sent" % (op["id"], v, k), li, op["id"])); continue
                i = idx[-1]
                for w in self.cps[k][i][4]:
                    if w.claim is None or (li, ev.res) < w.claim[:2]: w.claim = (li, ev.res, v, op["id"])
                for (l0, r0, i0) in last.get(k, ()):
                    if (l0, r0) < (li, ev.inv) and i0 > i:
                        out.append(V("cp-back", "op %d reports checkpoint %s for channel %s after the later %s had been reported" % (op["id"], v, k, self.cps[k][i0][0]), li, op["id"])); break
                last.setdefault(k, []).append((li, ev.res, i))
            if self.stopping(li, ev): continue
            for k in sorted(last):
                if k in got or ("leader" in m and k.split(":")[0] != m["leader"]): continue
                if any((l0, r0) < (li, ev.inv) for (l0, r0, i0) in last[k]):
                    out.append(V("cp-vanished", "op %d no longer reports a checkpoint for channel %s" % (op["id"], k), li, op["id"]))
            if m.get("rest"):
                for k, cs in sorted(self.cps.items()):
                    c = cs[-1]
                    if c[1] == li and c[3] < ev.inv and got.get(k) != c[0]:
                        out.append(V("cp-late", "op %d, long after checkpoint %s of channel %s was received, reports %s" % (op["id"], c[0], k, got.get(k)), li, op["id"]))

    # ---------------------------------------------------------------- durability at life boundaries
    def boundary(self, li, periodic=None):
        """Decide what must have survived the end of life li."""
        lh = self.h.lives[li]
        clean = lh.end == "exit"
        stop = self.stops.get(li)
        # once a stop has been requested the append command is accepted but leaves the flushing to the shutdown
        fl = [f for f in self.flushes if f[0] == li and (stop is None or f[2] < stop) and (li not in self.disk or f[2] < self.disk[li])]
        for ws in self.w.values():
            for w in ws:
                if w.life > li or w.dead: continue
                if li in self.hard:                     # only what had been stored before is sure to be there
                    if not w.solid: w.durable = w.must = False
                    continue
                if clean and w.durable: w.solid = True
                if w.durable: continue
                if w.claim is not None and w.claim[0] <= li:
                    w.durable = True; w.must = True; continue
                if w.life == li: ack = w.ack
                else: ack = getattr(self, "_seen", {}).get((li, id(w)), INF) if not w.must else 0
                if ack == INF:
                    w.must = False; continue
                if clean and stop is not None and ack < stop:
                    w.durable = True; w.must = True; w.solid = True
                elif any(ack < f[1] for f in fl):
                    w.durable = True; w.must = True
                elif periodic and w.t_ack is not None and w.life == li and w.t_ack + periodic < lh.now:
                    w.durable = True; w.must = True
                else:
                    w.must = False

    # ---------------------------------------------------------------- judging raw queries
    def check(self, inversion=True, periodic=None, ignore=None):
        out = []
        for ws in self.w.values():
            for w in ws: w.must = False
        self._seen = {}
        byl = {}
        for q in self.queries: byl.setdefault(q[0], []).append(q)
        self.check_cps(out)
        for li in range(len(self.h.lives)):
            qs = sorted([q for q in byl.get(li, []) if q[3] is not None], key=lambda q: q[1].res)
            self.check_life(li, qs, out, inversion, ignore)
            if self.lists: self.check_lists(li, out)
            if self.aggs: self.check_aggs(li, out)
            self.boundary(li, periodic)
        if "keep" in self.plan: self.check_removed(out)
        return out

    # ---------------------------------------------------------------- judging computed answers
    def settled(self, li, ev, k, t):
        """The value of a point at a query, None when there is none, False when it is not determined."""
        ws = [w for w in self.w[(k, t)] if not w.dead and (w.life < li or (w.life == li and w.inv < ev.res))]
        last = None
        for w in ws:
            if not (w.ack < ev.inv if w.life == li else w.must): return False
            if last is not None and not (last.life < w.life or last.ack < w.inv or (last.conn is not None and last.conn == w.conn and last.seq < w.seq)): return False
            last = w
        return None if last is None else last.val

    def check_aggs(self, li, out):
        unit = 1000 if self.plan["ms"] else 1
        for (l, ev, m, x, op) in self.aggs:
            if l != li or x is None or x.err or x.status != 200 or self.stopping(li, ev): continue
            lo, hi = agg.reach(m, unit)
            series, known, ok = {}, [], True
            for k, tss in self.bysid.items():
                if k[0] != m["metric"] or not match(m["filter"], dict(k[1])): continue
                vs = dict((t, self.settled(li, ev, k, t)) for t in tss if lo <= t <= hi or (m.get("ds") and m["ds"][2]))
                if any(v is False for v in vs.values()): ok = False; break
                vs = dict((t, v) for t, v in vs.items() if v is not None)
                if vs: known.append(k); series[k] = [(t, v) for t, v in vs.items() if lo <= t <= hi]
            if not ok: continue
            want = agg.evaluate(m, series, known, unit)
            if want is None: continue
            self.judged += 1
            name = "query op %d (%s)" % (op["id"], m["text"])
            try:
                a = json.loads(x.body.decode("latin-1"), object_pairs_hook=_pairs)
                got = {}
                for s in a:
                    k = (frozenset(s["tags"].items()), frozenset(s["aggregateTags"]))
                    if s["metric"] != m["metric"] or k in got: raise ValueError("series %s %s twice or of another metric" % (s["metric"], s["tags"]))
                    got[k] = dict((int(t), float(v)) for t, v in s["dps"].items())
            except Dup as d:
                out.append(V("duplicate", "%s returned %s twice" % (name, d), li, op["id"])); continue
            except (ValueError, KeyError, TypeError, AttributeError) as e:
                out.append(V("bad-json", "%s: unexpected response (%s): %r" % (name, e, x.body[:300]), li, op["id"])); continue
            if set(got) != set(want):
                out.append(V("wrong-groups", "%s returned %s; the stored points define %s" % (name, sorted(map(show, got)), sorted(map(show, want))), li, op["id"])); continue
            for k in sorted(want, key=show):
                g, w = got[k], want[k]
                d = [t for t in sorted(set(g) | set(w)) if t not in g or t not in w or not agg.same(g[t], w[t])]
                if d:
                    t = d[0]
                    out.append(V("wrong-answer", "%s: %s at %d is %s; the stored points define %s (%d of %d numbers differ)" % (name, show(k), t, g.get(t, "missing"), w.get(t, "nothing there"), len(d), len(set(g) | set(w))), li, op["id"])); break

    # ---------------------------------------------------------------- judging listings
    def check_lists(self, li, out):
        for (l, ev, m, x, op) in self.lists:
            if l != li or x is None or x.err or self.stopping(li, ev): continue
            need, may = set(), set()
            for k, tss in self.bysid.items():
                for t in tss:
                    for w in self.w[(k, t)]:
                        if w.dead or not (w.life < li or (w.life == li and w.inv < ev.res)): continue
                        may.add(k)
                        if (w.life == li and w.ack < ev.inv) or (w.life < li and w.must): need.add(k)
            if m["t"] == "suggest":
                f = {"metrics": lambda k: [k[0]], "tagk": lambda k: [a for a, b in k[1]], "tagv": lambda k: [b for a, b in k[1]]}[m["type"]]
                pre = lambda ks: set(n for k in ks for n in f(k) if n.startswith(m["q"]))
                name = "suggest type=%s q=%s" % (m["type"], m["q"])
            else:
                pre = lambda ks: set(k for k in ks if k[0] == m["metric"] and match(m["filter"], dict(k[1])))
                name = "lookup %s%s" % (m["metric"], m["filter"])
            need, may = pre(need), pre(may)
            if m["t"] == "lookup" and x.status == 400: got = []
            elif x.status == 413 and sum(60 + len(str(n)) for n in may) * 2 >= self.bufsize(li): continue
            elif x.status != 200:
                out.append(V("bad-status", "%s (op %d) answered with status %d" % (name, op["id"], x.status), li, op["id"])); continue
            else:
                try:
                    j = json.loads(x.body.decode("latin-1"))
                    got = j if m["t"] == "suggest" else [skey(s["metric"], s["tags"]) for s in j["results"]]
                    if m["t"] == "lookup" and j["totalResults"] != len(got):
                        out.append(V("listing-count", "%s (op %d) reports %d results and lists %d" % (name, op["id"], j["totalResults"], len(got)), li, op["id"])); continue
                except (ValueError, KeyError, TypeError, AttributeError) as e:
                    out.append(V("bad-json", "%s (op %d): %s: %r" % (name, op["id"], e, x.body[:200]), li, op["id"])); continue
            if len(got) != len(set(got)):
                out.append(V("listed-twice", "%s (op %d) lists something twice: %s" % (name, op["id"], got), li, op["id"]))
            if need - set(got):
                out.append(V("not-listed", "%s (op %d) does not list %s" % (name, op["id"], sorted(need - set(got))[:3]), li, op["id"]))
            if set(got) - may:
                out.append(V("listed-unwritten", "%s (op %d) lists %s, which nobody wrote" % (name, op["id"], sorted(set(got) - may)[:3]), li, op["id"]))

    # ---------------------------------------------------------------- retention
    def newer(self, li, ev, t):
        """The number of days after that of t that may have had data when the query was answered."""
        d = 86400 * (1000 if self.plan["ms"] else 1)
        if not hasattr(self, "_days"):
            self._days = {}
            for (k, ts), ws in self.w.items():
                for w in ws:
                    x = (w.life, w.inv)
                    if ts // d not in self._days or x < self._days[ts // d]: self._days[ts // d] = x
        return sum(1 for y, x in self._days.items() if y > t // d and x < (li, ev.res))

    def check_removed(self, out):
        """At rest no more than the configured number of days is left."""
        d = 86400 * (1000 if self.plan["ms"] else 1)
        days, last = set(), None
        for (li, ev, m, res, op) in self.queries:
            if not m.get("rest") or res is None: continue
            days.update(t // d for dps in res.values() for t in dps); last = (li, op["id"]); wall = ev.w0 // 10 ** 9
        # a day that has only just begun, or not yet, is not archived
        if len(days) > self.plan["keep"] and min(days) * 86400 < wall - 7200:
            out.append(V("not-removed", "%d days still have data although only %d are to be kept: %s" % (len(days), self.plan["keep"], sorted(days)), *last))

    def check_life(self, li, qs, out, inversion, ignore):
        seen = {}                   # (series, ts) -> list of (res seq, inv seq, write or None)
        for (_, ev, m, res, op) in qs:
            for k in res:
                if k[0] != m["metric"] or not match(m["filter"], dict(k[1])):
                    out.append(V("wrong-series", "query op %d for %s%s returned series %s" % (op["id"], m["metric"], m["filter"], k), li, op["id"]))
                elif k not in self.bysid:
                    out.append(V("unknown-series", "query op %d returned series %s that nobody wrote" % (op["id"], k), li, op["id"]))
            for k, tss in self.bysid.items():
                if k[0] != m["metric"] or not match(m["filter"], dict(k[1])): continue
                got = res.get(k, {})
                for t in got:
                    if t not in tss:
                        out.append(V("fabricated", "query op %d returned %s = %r, a timestamp never written to that series" % (op["id"], fmt_pt(k, t), got[t]), li, op["id"]))
                    elif t < m["s"] or t > m["e"]:
                        out.append(V("out-of-range", "query op %d [%d,%d] returned %s" % (op["id"], m["s"], m["e"], fmt_pt(k, t)), li, op["id"]))
                for t in tss:
                    if t < m["s"] or t > m["e"]: continue
                    if ignore and ignore(k, t): continue
                    ws = self.w[(k, t)]
                    cand = [w for w in ws if (w.life < li or (w.life == li and w.inv < ev.res)) and not w.dead]
                    need = [w for w in ws if (w.life == li and (w.ack < ev.inv or (w.t_vis is not None and w.t_vis < ev.t0))) or (w.life < li and w.must) or (w.claim is not None and w.claim < (li, ev.inv))]
                    if self.damaged(li, ev): need = [w for w in need if w.solid]
                    if t not in got:
                        if self.stopping(li, ev): continue
                        if "keep" in self.plan and self.newer(li, ev, t) >= self.plan["keep"]: continue     # may have been removed
                        if need:
                            out.append(V("lost", "query op %d does not return %s = %r, acknowledged by op %d of life %d" % (op["id"], fmt_pt(k, t), need[-1].val, need[-1].op, need[-1].life), li, op["id"]))
                        elif inversion and not self.damaged(li, ev):
                            for (rs, iv, w) in seen.get((k, t), ()):
                                if rs < ev.inv:
                                    out.append(V("vanished", "query op %d no longer returns %s = %r, which was returned before in this life" % (op["id"], fmt_pt(k, t), w.val), li, op["id"])); break
                        continue
                    v = got[t]
                    c = [w for w in cand if abs(w.val - v) <= 1e-6 * max(1.0, abs(v))]
                    if not c:
                        out.append(V("wrong-value", "query op %d returned %s = %r; values sent: %s" % (op["id"], fmt_pt(k, t), v, [w.val for w in ws]), li, op["id"]))
                        continue
                    w = c[-1]
                    older = lambda a, b: (a.life < b.life and a.ack != INF) or (a.life == b.life and (a.ack < b.inv or (a.t_vis is not None and a.t_vis < b.t0) or (a.conn is not None and a.conn == b.conn and a.seq < b.seq)))
                    sup = [x for x in need if older(w, x)] if not self.stopping(li, ev) else []
                    if len(c) == 1 and sup:
                        out.append(V("stale", "query op %d returned %s = %r (op %d), but op %d wrote %r later and was acknowledged before the query" % (op["id"], fmt_pt(k, t), v, w.op, sup[-1].op, sup[-1].val), li, op["id"]))
                        continue
                    if len(c) == 1 and inversion and not self.damaged(li, ev):
                        for (rs, iv, pw) in seen.get((k, t), ()):
                            if rs < ev.inv and pw is not w and older(w, pw):
                                out.append(V("went-back", "query op %d returned %s = %r after an earlier query had returned the newer %r" % (op["id"], fmt_pt(k, t), v, pw.val), li, op["id"])); break
                    seen.setdefault((k, t), []).append((ev.res, ev.inv, w))
                    key = (li, id(w))
                    if key not in self._seen: self._seen[key] = ev.res

_left = re.compile(rb"conns=(\d+) blocks=(\d+) bytes=(\d+) live=(\d+)((?:.|\n)*)")
def left(plan, hist):
    """What the server still holds once every client has gone."""
    out = []
    for li, (l, lh) in enumerate(zip(plan["lives"], hist.lives)):
        for c in l["clients"]:
            for o in c["ops"]:
                e = lh.ev.get(o["id"])
                if (o.get("m") or {}).get("t") != "left" or e is None or not e.ok: continue
                g = _left.match(e.raw)
                if int(g.group(1)): out.append(V("not-closed", "%s connection(s) closed by the client are still held at op %d" % (g.group(1).decode(), o["id"]), li, o["id"]))
                if int(g.group(2)): out.append(V("leak", "%s block(s) with %s bytes are out of reach at op %d:%s" % (g.group(2).decode(), g.group(3).decode(), o["id"], g.group(5).decode("latin-1").replace("\n", "; ")), li, o["id"]))
    return out

def ends(plan, hist, clean_expected=True):
    """Abnormal ends of lives."""
    out = []
    for i, l in enumerate(hist.lives):
        last = i == len(hist.lives) - 1
        stopped = False
        if l.end == "kill": continue
        if l.end == "exit":
            exp = plan["lives"][i].get("expect", "stop")
            evs = [l.ev.get(o["id"]) for c in plan["lives"][i]["clients"] for o in c["ops"] if o.get("m", {}).get("t") == "stop"]
            asked = any(e is not None and e.inv is not None for e in evs)
            if not asked:
                out.append(V("exit-unasked", "the server exited by itself in life %d: %s" % (i, l.msg), i))
            elif l.code != 0 or "main returned" not in l.msg:
                out.append(V("exit-code", "life %d: %s" % (i, l.msg), i))
        elif l.end == "timecap":
            evs = [l.ev.get(o["id"]) for c in plan["lives"][i]["clients"] for o in c["ops"] if o.get("m", {}).get("t") == "stop"]
            asked = any(e is not None and e.inv is not None for e in evs)
            if l.ready is None:
                out.append(V("not-started", "life %d: the server did not reach service within %.0f s" % (i, l.now / 1e9), i))
            else:
                out.append(V("no-exit" if asked else "stuck", "life %d: %s after %.0f s of virtual time" % (i, "the server did not exit after a stop request" if asked else "clients did not finish", l.now / 1e9), i))
        else:
            out.append(V("died:" + l.end, "life %d ended by %s: %s" % (i, l.end, l.msg), i))
    return out

def judge(plan, hist):
    p = plan["property"]
    m = Model(plan, hist)
    out = ends(plan, hist)
    m.check_big()
    if p == "C15": return [v for v in out if v.cls.startswith("died:") or v.cls in ("exit-unasked", "exit-code", "not-started")]
    if p == "C21":
        out = [v for v in out if v.cls.startswith("died:") or v.cls in ("exit-unasked", "exit-code", "not-started")]
        return out + left(plan, hist)
    out += m.bad
    out += m.check(periodic=plan["periodic"] * 10 ** 9 if "periodic" in plan else None)
    skip = SKIP.get(p)
    if skip and any(l.end != "exit" for l in hist.lives): out = [v for v in out if v.cls not in skip]
    return out

# Classes that a property says nothing about once a life has ended with a kill.
SKIP = {}

def stats(plan, hist):
    """What a run exercised; counts are summed over the runs of a check."""
    d = {"ops_invoked": 0, "ops_answered": 0, "points_sent": 0, "queries_answered": 0, "queries_with_data": 0}
    acked = False
    for l, lh in zip(plan["lives"], hist.lives):
        for c in l["clients"]:
            for o in c["ops"]:
                e = lh.ev.get(o["id"])
                if e is None or e.inv is None: continue
                m = o.get("m") or {}
                d["ops_invoked"] += 1
                d["points_sent"] += len(m.get("pts", ()))
                if e.ok:
                    d["ops_answered"] += 1
                    if m.get("t") in ("put", "tbar") or m.get("vis"): acked = True
                    if m.get("t") in ("q", "agg"):
                        d["queries_answered"] += 1
                        if b'"dps":{"' in e.raw: d["queries_with_data"] += 1
    d["nontrivial"] = bool(acked and d["queries_with_data"])
    return d
