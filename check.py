#!/usr/bin/env python3
"""check.py PROPERTY            decide one property by seeded search (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE       re-run one replay file
   check.py --determinism PROP [N]  run N seeds twice, in pools of different sizes, and compare execution hashes
   check.py --one PROP SEED     run one seed and print what it found"""
import json, os, re, sys, time, shutil, multiprocessing as mp, traceback, queue
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/sim")
import build as simbuild
from dst import core, gen, oracle, minimise

BUDGET = {"quick": 42.0, "thorough": 600.0}
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
REAL = "all of /repo/src (scheduler, storage, WAL, meta, checkpoint, roll-up, compaction, query, HTTP/TCP/UDP servers, parsers, main) runs its real code, one process per life"
STUB = "kernel threads/locks/clock/sockets/epoll/pipes are the simulator's model; files are real files in a scratch directory behind the fault layer; clients are generated"

def say(s):
    print(s, flush=True)

# ------------------------------------------------------------------ known findings
class Known(object):
    def __init__(self, prop):
        self.items = []
        f = os.path.join(HERE, "known-findings.txt")
        if os.path.exists(f):
            for line in open(f):
                line = line.strip()
                m = re.match(r"^known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$", line)
                if m and m.group(1) == prop:
                    self.items.append((m.group(2), re.compile(m.group(3)), m.group(4)))
        self.hit = {}
    def match(self, v):
        for cls, rx, text in self.items:
            if cls == v.cls and rx.search(v.text):
                return text
        return None

# ------------------------------------------------------------------ workers
def one(exe, plan, work, **kw):
    h = core.run(exe, plan, work, **kw)
    return h, oracle.judge(plan, h)

def worker(wid, exe, prop, base, counter, stop, out, deadline, scratch, known):
    work = "%s/w%d" % (scratch, wid)
    n = 0
    try:
        while not stop.is_set() and time.time() < deadline:
            with counter.get_lock():
                i = counter.value; counter.value += 1
            seed = base + i
            plan = gen.generate(prop, seed)
            t = time.time()
            h, vs = one(exe, plan, work, cov=True)
            r = {"seed": seed, "wall": time.time() - t, "steps": sum(l.steps for l in h.lives), "switches": sum(l.switches for l in h.lives), "now": sum(l.now for l in h.lives),
                 "hash": h.hash(), "shash": "-".join(l.shash for l in h.lives), "lives": len(h.lives), "ends": [l.end for l in h.lives],
                 "fc": [sum(x) for x in zip(*[l.fc for l in h.lives])], "cov": sorted(set(b for l in h.lives for b in (l.cov or []))),
                 "stats": oracle.stats(plan, h)}
            if n % 25 == 7:                        # determinism sample
                h2, vs2 = one(exe, plan, work, cov=False)
                r["again"] = h2.hash() == h.hash() and minimise.classes(vs) == minimise.classes(vs2)
            n += 1
            bad = [v for v in vs if not known.match(v)]
            r["known"] = sorted(set(known.match(v) for v in vs if known.match(v)))
            r["viol"] = [(v.cls, v.text) for v in bad[:20]]
            out.put(r)
    except core.SimError as e:
        out.put({"error": str(e), "seed": seed})
    except Exception:
        out.put({"error": traceback.format_exc(), "seed": None})
    shutil.rmtree(work, ignore_errors=True)

class Pool(object):
    """Parallel evaluation of candidate plans."""
    def __init__(self, exe, scratch, known):
        self.exe, self.scratch, self.known = exe, scratch, known
        self.px = mp.Pool(WORKERS)
        self.n = 0
    def evaluate(self, plans):
        args = []
        for p in plans:
            self.n += 1
            args.append((self.exe, p, "%s/m%d" % (self.scratch, self.n), self.known))
        return self.px.map(_eval, args, 1)
    def record(self, plan):
        self.n += 1
        return self.px.apply(_rec, ((self.exe, plan, "%s/m%d" % (self.scratch, self.n)),))
    def close(self):
        self.px.terminate()

def _eval(a):
    exe, p, work, known = a
    try:
        h, vs = one(exe, p, work, timeout=60)
        return set(v.cls for v in vs if not known.match(v))
    except Exception:
        return set()
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _rec(a):
    exe, p, work = a
    try:
        h = core.run(exe, p, work, dec=True, timeout=60)
        return [l.dec or [] for l in h.lives] if len(h.lives) == len(p["lives"]) else None
    except Exception:
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)

# ------------------------------------------------------------------ reporting
def confirm(exe, plan, cls, scratch):
    """Two fresh runs must agree exactly and show the class. Returns (hash, violations) or None."""
    known = Known(plan["property"])
    h1, v1 = one(exe, plan, scratch + "/c1")
    h2, v2 = one(exe, plan, scratch + "/c2")
    if h1.hash() != h2.hash():
        raise core.SimError("replay diverged: %s / %s" % (h1.hash(), h2.hash()))
    v1 = [v for v in v1 if not known.match(v)]
    return (h1.hash(), v1) if any(v.cls == cls for v in v1) else None

def report(exe, prop, seed, cls, scratch, min_budget):
    plan = gen.generate(prop, seed)
    got = confirm(exe, plan, cls, scratch)
    if got is None:
        raise core.SimError("violation %s of seed %d does not reproduce" % (cls, seed))
    os.makedirs(HERE + "/replays", exist_ok=True)
    best = plan
    if min_budget > 0:
        pool = Pool(exe, scratch, Known(prop))
        try:
            best = minimise.Min(pool, plan, cls, min_budget, say).run()
        finally:
            pool.close()
        g2 = confirm(exe, best, cls, scratch)
        if g2 is None: best = plan
        else: got = g2
    path = "%s/replays/%s-%s-%d.json" % (HERE, prop, re.sub(r"[^a-z0-9]+", "_", cls.lower()), seed)
    tr = path[:-5] + ".trace"
    core.run(exe, best, scratch + "/c1", trace=tr)
    with open(tr, "r+", errors="replace") as f:
        body = f.read(); f.seek(0); f.write("\n".join("%s: %s" % (v.cls, v.text) for v in got[1][:10]) + "\n" + minimise.size(best) + "\n\n" + body)
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "class": cls, "hash": got[0], "violations": [str(v) for v in got[1][:10]], "plan": best}, f, indent=1)
    return path, got[1], best

def replay(path):
    d = json.load(open(path))
    exe = simbuild.build()
    scratch = core.scratch_base() + "/ttr-%d" % os.getpid()
    try:
        got = confirm(exe, d["plan"], d["class"], scratch)
        if got is None:
            say("replay of %s: no violation of class %s on this tree" % (path, d["class"])); return 0
        say("execution hash %s (%s)" % (got[0], "as recorded" if got[0] == d["hash"] else "recorded %s, from another build of the tree" % d["hash"]))
        for v in got[1][:5]: say("  " + str(v))
        say("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def determinism(prop, n):
    exe = simbuild.build(); bad = 0
    base = core.scratch_base() + "/ttd-%d" % os.getpid()
    res = []
    for size in (8, 3):
        with mp.Pool(size) as px:
            res.append(px.map(_dh, [(exe, prop, s, "%s/%d-%d" % (base, size, s)) for s in range(n)], 1))
    for s, (a, b) in enumerate(zip(*res)):
        if a != b: bad += 1; say("seed %d differs: %s / %s" % (s, a, b))
    shutil.rmtree(base, ignore_errors=True)
    say("determinism %s: %d seeds, %d differ" % (prop, n, bad))
    return 2 if bad else 0

def _dh(a):
    exe, prop, s, work = a
    try:
        h = core.run(exe, gen.generate(prop, s), work)
        return h.hash()
    except core.SimError as e:
        return "error " + str(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    if len(sys.argv) > 2 and sys.argv[1] == "--determinism": return determinism(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 200)
    if len(sys.argv) > 3 and sys.argv[1] == "--one":
        exe = simbuild.build(); s = core.scratch_base() + "/tto-%d" % os.getpid()
        try:
            h, vs = one(exe, gen.generate(sys.argv[2], int(sys.argv[3])), s)
            say("hash %s ends %s" % (h.hash(), [l.end for l in h.lives]))
            for v in vs: say(str(v))
        finally:
            shutil.rmtree(s, ignore_errors=True)
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    exe = simbuild.build()
    tb = time.time() - t0
    known = Known(prop)
    budget = float(os.environ.get("VERIF_BUDGET", BUDGET[tier]))
    scratch = core.scratch_base() + "/ttc-%s-%d" % (prop, os.getpid())
    base = seed * 10000000
    counter = mp.Value("l", 0); stop = mp.Event(); out = mp.Queue()
    ts = time.time(); deadline = ts + budget
    ps = [mp.Process(target=worker, args=(w, exe, prop, base, counter, stop, out, deadline, scratch, known), daemon=True) for w in range(WORKERS)]
    for p in ps: p.start()
    runs = []; cov = set(); hashes = set(); shashes = set(); fc = [0] * len(core.FAULTS); agg = {}; err = None; fails = []; steps = now = again = 0; samples = []; knownhit = set(); nontriv = 0; maxw = 0; ends = {}; lives = 0; switches = 0
    def take(r):
        nonlocal err, steps, now, again, nontriv, maxw, lives, switches
        if "error" in r:
            err = r; stop.set(); return
        runs.append(r["seed"]); cov.update(r["cov"]); steps += r["steps"]; now += r["now"]; maxw = max(maxw, r["wall"]); lives += r["lives"]; switches += r["switches"]
        if r["stats"].get("nontrivial") and r["hash"] not in hashes: nontriv += 1
        hashes.add(r["hash"]); shashes.add(r["shash"])
        for e in r["ends"]: ends[e] = ends.get(e, 0) + 1
        for i, x in enumerate(r["fc"]): fc[i] += x
        for k, x in r["stats"].items():
            if k != "nontrivial": agg[k] = agg.get(k, 0) + x
        if "again" in r:
            again += 1
            if not r["again"]: err = {"error": "seed %d: two runs of the same plan differ" % r["seed"], "seed": r["seed"]}; stop.set()
        knownhit.update(r["known"])
        if len(samples) < 3 or (len(samples) < 6 and r["stats"].get("nontrivial")):
            samples.append({"seed": r["seed"], "lives": r["lives"], "steps": r["steps"], "ends": r["ends"], "virtual_s": round(r["now"] / 1e9, 3), "execution_hash": r["hash"][:32], **{k: v for k, v in r["stats"].items()}})
        if r["viol"]: fails.append(r); stop.set()
    while any(p.is_alive() for p in ps):
        try: take(out.get(timeout=0.2))
        except queue.Empty: pass
    while True:
        try: take(out.get(timeout=0.2))
        except queue.Empty: break
    wall = time.time() - ts
    code = 0; viols = []
    try:
        if fails:
            f = min(fails, key=lambda r: r["seed"])
            cls, text = f["viol"][0]
            say("seed %d: %s: %s" % (f["seed"], cls, text))
            path, vs, best = report(exe, prop, f["seed"], cls, scratch, float(os.environ.get("VERIF_MIN", "60")))
            for v in [v for v in vs if v.cls == cls][:3]: say("  " + str(v))
            say("replay file: %s (%s); seed %d; trace %s" % (path, minimise.size(best), f["seed"], path[:-5] + ".trace"))
            viols.append({"seed": f["seed"], "class": cls, "text": str([v for v in vs if v.cls == cls][:1]), "replay": path})
            say("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
        elif err:
            say("ERROR (seed %s): %s" % (err["seed"], err["error"])); code = 2
        elif not runs:
            say("ERROR: no run completed"); code = 2
    except core.SimError as e:
        say("ERROR: %s" % e); code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for k in sorted(knownhit):
        say("KNOWN-FINDING: property=%s %s" % (prop, k))
    hours = max(wall, 1e-3) / 3600
    ev = {"property": prop, "tier": tier, "seed": seed, "level": gen.LEVEL.get(prop, "exploration"),
          "coverage": {
              "evaluations": len(runs), "distinct_nontrivial": nontriv,
              "rule": "one evaluation = one simulated execution of a plan generated from (property, seed); distinct by execution hash (every scheduling decision, lock, network, file and clock event); non-trivial = " + gen.RULE.get(prop, "at least one judged query after at least one acknowledged write"),
              "samples": samples,
              "seeds": [min(runs), max(runs)] if runs else [], "seeds_per_hour": round(len(runs) / hours), "simulated_hours": round(now / 3.6e12, 2), "server_lives": lives, "life_ends": ends,
              "faults_injected": {n: c for n, c in zip(core.FAULTS, fc) if c},
              "distinct_schedules": len(shashes), "distinct_interleaving_points": len(cov),
              "interleaving_measure": "distinct (function running, function switched to) pairs at context switches, hashed to 16 bits; schedules distinct by hash of all switch decisions",
              "server_memory_and_sync_steps": steps, "context_switches": switches, "determinism_rechecks": again,
              "judged": agg, "real_code": REAL, "stubbed": STUB, "slowest_run_s": round(maxw, 2), "build_s": round(tb, 1), "known_findings_seen": sorted(knownhit)},
          "wall_s": round(time.time() - t0, 1),
          "assumptions": gen.ASSUME.get(prop, []) + ["sequentially consistent memory at instrumented accesses", "a kill keeps completed write()s and stores to shared file mappings, loses everything else", "bounds: see DESIGN.md"],
          "violations": viols}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s: %d runs (%d distinct non-trivial), %d lives, %.1f virtual h, %.0f s wall, %d violation(s)" % (prop, len(runs), nontriv, lives, now / 3.6e12, time.time() - t0, len(viols)))
    return code

if __name__ == "__main__":
    sys.exit(main())
