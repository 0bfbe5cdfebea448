"""Shrink a failing plan: operations, lives, configuration, fault knobs, then the recorded schedule decisions."""
import time
from . import core, gen, oracle

CALM = [("p_stall", 0), ("p_seg", 0), ("p_coalesce", 0), ("sndbuf", None), ("seg_max", None), ("p_bigdelay", None), ("pct", None), ("preempt_mean", 0), ("p_switch", 0), ("junk", 0), ("nprocs", 1), ("net_delay_us", 50),
        ("p_file_fault", None), ("p_res_fault", None), ("crash_torn", None)]
KEEP = ("ticktock.home", "tsdb.data.dir", "log.file", "log.level")

def classes(vs):
    return set(v.cls for v in vs)

class Min(object):
    def __init__(self, pool, plan, cls, budget, say):
        self.pool, self.best, self.cls, self.end, self.say = pool, plan, cls, time.time() + budget, say
        self.tries = 0

    def left(self):
        return self.end - time.time()

    def first(self, cands):
        """First candidate (in order) that still fails with the same class, evaluated in parallel."""
        i = 0
        while i < len(cands) and self.left() > 0:
            batch = cands[i:i + 8]
            i += 8
            self.tries += len(batch)
            for c, r in zip(batch, self.pool.evaluate(batch)):
                if r and self.cls in r:
                    return c
        return None

    def ddmin(self, items, build, variants=1):
        """items: list; build(kept) -> list of candidate plans."""
        n = 2
        while items and self.left() > 0:
            size = max(1, len(items) // n)
            chunks = [items[i:i + size] for i in range(0, len(items), size)]
            tried = []
            for ch in chunks:
                drop = set(ch)
                kept = [x for x in items if x not in drop]
                for p in build(kept):
                    tried.append((kept, p))
            hit = self.first([p for _, p in tried])
            if hit is not None:
                items = [k for k, p in tried if p is hit][0]
                self.best = hit
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return items

    # ---- stages
    def ops(self):
        plan = self.best
        ids = [o["id"] for l in plan["lives"] for c in l["clients"] for o in c["ops"] if o["k"] not in ("join",) and (o.get("m") or {}).get("t") != "stop"]
        def build(kept):
            ks = set(kept); out = []
            for var in range(2):
                p = core.clone(self.best)
                for l in p["lives"]:
                    for c in l["clients"]:
                        c["ops"] = [o for o in c["ops"] if o["id"] in ks or o["k"] == "join" or (o.get("m") or {}).get("t") == "stop"]
                    if var: l["params"]["seed"] = l["params"].get("seed", 1) + 7919 * var
                out.append(p)
            return out
        self.ddmin(ids, build)

    def points(self):
        """Drop points inside multi-point writes (plain lines only)."""
        cands = []
        for li, l in enumerate(self.best["lives"]):
            for ci, c in enumerate(l["clients"]):
                for oi, o in enumerate(c["ops"]):
                    pts = (o.get("m") or {}).get("pts")
                    if pts and len(pts) > 1 and o.get("src"):
                        cands.append((li, ci, oi))
        return cands

    def lives(self):
        while len(self.best["lives"]) > 1 and self.left() > 0:
            cands = []
            for i in range(len(self.best["lives"])):
                p = core.clone(self.best); del p["lives"][i]; cands.append(p)
            hit = self.first(cands)
            if hit is None: return
            self.best = hit

    def conf(self):
        keys = sorted(set(k for l in self.best["lives"] for k in l["conf"] if k not in KEEP))
        def build(kept):
            ks = set(kept)
            p = core.clone(self.best)
            for l in p["lives"]:
                l["conf"] = {k: v for k, v in l["conf"].items() if k in KEEP or k in ks}
            return [p]
        self.ddmin(keys, build)

    def calm(self):
        for k, v in CALM:
            if self.left() <= 0: return
            p = core.clone(self.best); ch = False
            for l in p["lives"]:
                if k in l["params"] and l["params"][k] != v:
                    ch = True
                    if v is None: del l["params"][k]
                    else: l["params"][k] = v
            if ch:
                hit = self.first([p])
                if hit is not None: self.best = hit

    def decisions(self):
        """Replace the PRNG by the recorded schedule decisions and drop those that do not matter."""
        r = self.pool.record(self.best)
        if r is None: return
        p = core.clone(self.best)
        for l, d in zip(p["lives"], r):
            l["dec"] = d; l["params"]["replay_sched"] = 1
        hit = self.first([p])
        if hit is None: return
        self.best = hit
        items = [(i, d) for i, l in enumerate(hit["lives"]) for d in l.get("dec", [])]
        def build(kept):
            q = core.clone(self.best)
            by = {}
            for i, d in kept: by.setdefault(i, []).append(d)
            for i, l in enumerate(q["lives"]): l["dec"] = by.get(i, [])
            return [q]
        self.ddmin(items, build)

    def run(self):
        for name in ("ops", "lives", "conf", "calm", "ops", "decisions"):
            if self.left() <= 0: break
            getattr(self, name)()
            self.say("minimise %s: %s" % (name, size(self.best)))
        return self.best

def size(p):
    return "%d lives, %d operations, %d schedule decisions%s" % (len(p["lives"]), sum(len(c["ops"]) for l in p["lives"] for c in l["clients"]),
        sum(len(l.get("dec", [])) for l in p["lives"]), "" if all("dec" in l for l in p["lives"]) else " recorded (rest from the seed)")
