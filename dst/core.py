"""Plans, running them under the simulator, and parsing the recorded history."""
import copy, json, os, shutil, subprocess, urllib.parse

END = {0: "none", 1: "exit", 2: "kill", 3: "signal", 4: "timecap", 5: "stepcap", 6: "memerr", 7: "deadlock", 8: "segv", 9: "abort", 10: "harness", 11: "kill"}
FAULTS = ["kill", "kill_torn_write", "stop_request", "sigterm", "write_enospc", "write_eio", "write_short", "open_fail", "rename_fail", "truncate_fail", "mmap_fail", "mkdir_fail",
          "fallocate_fail", "read_fail", "accept_fail", "eintr", "emfile", "send_fail", "net_segment", "net_delay", "net_coalesce", "net_reset", "net_close", "net_backpressure",
          "net_short_send", "udp_loss", "udp_dup", "udp_reorder", "clock_forward", "clock_backward", "thread_stall", "preemption", "slow_reader", "dir_order", "config_change"]
_safe = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/:=,;?&{}[]()<>!*+@\"'|")
_tab = [chr(i) if i in _safe else "%%%02X" % i for i in range(256)]

def esc(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    s = "".join([_tab[c] for c in b])
    return "%2D" if s == "-" else s or "-"

def unesc(s):
    if s == "-":
        return b""
    return urllib.parse.unquote_to_bytes(s)

def render(plan):
    o = []
    for l in plan["lives"]:
        o.append("life")
        for k, v in l["params"].items():
            if k == "fault_off":
                for i in v:
                    o.append("p fault_off %d" % i)
            else:
                o.append("p %s %s" % (k, v))
        for k, v in l["conf"].items():
            o.append("conf %s %s" % (k, esc(str(v))))
        if "dec" in l:
            o.append("dec " + " ".join(l["dec"]))
        for c in l["clients"]:
            o.append("client %d" % c["id"])
            for op in c["ops"]:
                o.append("op %d %s %s" % (op["id"], op["k"], " ".join(esc(x) if i in op.get("b", ()) else str(x) for i, x in enumerate(op["a"]))))
    return "\n".join(o) + "\n"

class Ev(object):
    __slots__ = ("inv", "t0", "w0", "res", "t1", "w1", "ok", "raw", "why")
    def __init__(self):
        self.inv = self.t0 = self.w0 = self.res = self.t1 = self.w1 = None
        self.ok = None; self.raw = b""; self.why = ""

class LifeH(object):
    def __init__(self, idx):
        self.idx = idx; self.ev = {}; self.reconn = set(); self.udp = {}; self.faults = []; self.junk = []; self.ready = None
        self.end = None; self.code = 0; self.msg = ""; self.steps = self.switches = self.forced = self.now = 0
        self.hash = self.shash = ""; self.fc = [0] * len(FAULTS); self.cov = None; self.dec = None; self.ready_ns = 0; self.ndec = 0; self.pairs = 0

class Hist(object):
    def __init__(self):
        self.lives = []; self.ok = False; self.err = ""
    def hash(self):
        return "-".join(l.hash for l in self.lives)

def parse(path):
    h = Hist(); L = None
    with open(path, "r", encoding="latin-1") as f:
        for line in f:
            t = line.rstrip("\n").split(" ")
            k = t[0]
            if k == "I":
                e = L.ev.get(int(t[1]))
                if e is None:
                    e = L.ev[int(t[1])] = Ev()
                e.inv = int(t[2]); e.t0 = int(t[3]); e.w0 = int(t[4])
            elif k == "R":
                e = L.ev[int(t[1])]
                e.res = int(t[2]); e.t1 = int(t[3]); e.w1 = int(t[4]); e.ok = True; e.raw = unesc(t[5])
            elif k == "X":
                e = L.ev[int(t[1])]
                e.res = int(t[2]); e.t1 = int(t[3]); e.ok = False; e.why = t[4]; e.raw = unesc(t[5])
            elif k == "D":
                L.udp.setdefault(int(t[1]), []).append((int(t[2]), int(t[3])))
            elif k == "N":
                L.reconn.add(int(t[1]))
            elif k == "F":
                L.faults.append((t[1], t[2], int(t[3]), int(t[4]), int(t[5])))
            elif k == "J":
                L.junk.append((int(t[1]), int(t[2]), unesc(t[3])))
            elif k == "S":
                L.ready = int(t[2])
            elif k == "L":
                L = LifeH(int(t[1])); h.lives.append(L)
            elif k == "E":
                L.end = END[int(t[1])]; L.code = int(t[2]); L.steps = int(t[3]); L.switches = int(t[4]); L.forced = int(t[5]); L.now = int(t[6]); L.ready_ns = int(t[7])
                L.hash = t[8]; L.shash = t[9]; L.pairs = int(t[10]); L.ndec = int(t[12]); L.msg = unesc(t[13]).decode("latin-1")
            elif k == "FC":
                L.fc = [int(x) for x in t[1:]]
            elif k == "CV":
                L.cov = [int(x, 16) for x in t[1:] if x]
            elif k == "DC":
                L.dec = [x for x in t[1:] if x]
            elif k == "OK":
                h.ok = True
    return h

class SimError(Exception):
    pass

def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"

def run(exe, plan, work, cov=False, dec=False, trace=None, timeout=300):
    """Run one plan in directory `work` (recreated)."""
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + "/s")
    with open(work + "/plan", "w", encoding="latin-1") as f:
        f.write(render(plan))
    cmd = [exe, work + "/plan", work + "/out", work + "/s"]
    if cov: cmd.append("cov")
    if dec: cmd.append("dec")
    if trace: cmd.append("trace=" + trace)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=(open(os.environ["TT_ERR"],"w") if os.environ.get("TT_ERR") else subprocess.STDOUT), timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise SimError("simulator did not finish in %d s wall time (seed %s)" % (timeout, plan.get("seed")))
    if p.returncode not in (0, 71):
        raise SimError("simulator exit %d: %s" % (p.returncode, p.stdout.decode(errors="replace")[-2000:]))
    h = parse(work + "/out")
    if not h.ok:
        raise SimError("incomplete history")
    for l in h.lives:
        if l.end == "harness":
            raise SimError("simulator failed in life %d: %s" % (l.idx, l.msg))
    h.out = p.stdout.decode("latin-1", errors="replace")
    return h

def clone(plan):
    return json.loads(json.dumps(plan))
