// Plan executor: reads a plan (lives, configuration, client operations), runs each life of the server in a forked
// process under the simulator and writes the recorded history. Generation and judging of plans live in /verif/dst.
#include "sim.h"
#include "alloc.h"
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <deque>
#include <set>

int tt_main(int, char **);
using namespace sim;

namespace sim {
extern void arm_crash(uint64_t steps, uint64_t fileops, int torn);
static void hist(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void hist_raw(const char *p, size_t n)
{
    if (sh->nev + n + 16 > sh->evcap) { end_life(END_HARNESS, 1, "history overflow"); }
    memcpy(sh_events + sh->nev, p, n);
    sh->nev += n;
    for (size_t i = 0; i < n; i++) hash_in((uint8_t)p[i]);
}
static void hist(const char *fmt, ...)
{
    char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    hist_raw(b, n);
}
static std::string esc(const std::string &s)
{
    static const char hx[] = "0123456789ABCDEF";
    std::string o; o.reserve(s.size() + 16);
    for (unsigned char c : s)
        if (c > 32 && c < 127 && c != '%') o += (char)c; else { o += '%'; o += hx[c >> 4]; o += hx[c & 15]; }
    return o.empty() ? "-" : o;
}
static std::string unesc(const std::string &s)
{
    if (s == "-") return "";
    std::string o; o.reserve(s.size());
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i];
    return o;
}
void hist_fault(FaultKind k, const char *path, int err) { hist("F %s %s %d %llu %llu\n", fault_names[k], path, err, (unsigned long long)next_seq(), (unsigned long long)now()); }
}

struct Op { int id; std::string kind; std::vector<std::string> a; };
struct Client { int id; std::vector<Op> ops; bool done = false; };
struct Life { std::vector<std::pair<std::string, std::string>> params, conf; std::vector<Client> clients; std::vector<Decision> dec; };

static std::set<int> done_ops;
static Life *life;

static uint64_t U(const std::string &s) { return strtoull(s.c_str(), nullptr, 10); }
static double Dbl(const std::string &s) { return strtod(s.c_str(), nullptr); }

static uint64_t prev_end_wall;          // wall clock at the end of the previous life

static void set_param(const std::string &k, const std::string &v)
{
    if (k == "seed") P.seed = U(v);
    else if (k == "wall_s") P.wall_base_ns = U(v) * SEC;
    else if (k == "wall_gap_ms") { if (prev_end_wall) P.wall_base_ns = prev_end_wall + (int64_t)atoll(v.c_str()) * (int64_t)MS; }
    else if (k == "p_switch") P.p_switch = Dbl(v);
    else if (k == "preempt_mean") P.preempt_mean = U(v);
    else if (k == "p_stall") P.p_stall = Dbl(v);
    else if (k == "stall_max_ms") P.stall_max_ms = U(v);
    else if (k == "stall_budget_ms") P.stall_budget_ms = U(v);
    else if (k == "pct") { P.pct = true; P.pct_changes = atoi(v.c_str()); }
    else if (k == "pct_len") P.pct_len = U(v);
    else if (k == "crash_step") P.crash_step = U(v);
    else if (k == "crash_op_map") P.crash_op_map = U(v);
    else if (k == "crash_op_file") P.crash_op_file = U(v);
    else if (k == "crash_torn") P.crash_torn = U(v);
    else if (k == "step_cap") P.step_cap = U(v);
    else if (k == "time_cap_s") P.time_cap_ns = U(v) * SEC;
    else if (k == "net_delay_us") P.net_delay_us = U(v);
    else if (k == "p_seg") P.p_seg = Dbl(v);
    else if (k == "p_coalesce") P.p_coalesce = Dbl(v);
    else if (k == "p_bigdelay") P.p_bigdelay = Dbl(v);
    else if (k == "sndbuf") P.sndbuf = atoi(v.c_str());
    else if (k == "seg_max") P.seg_max = atoi(v.c_str());
    else if (k == "p_file_fault") P.p_file_fault = Dbl(v);
    else if (k == "file_fault_mask") P.file_fault_mask = U(v);
    else if (k == "file_fault_classes") P.file_fault_classes = U(v);
    else if (k == "file_fault_sticky") P.file_fault_sticky = U(v);
    else if (k == "file_fault_from_ms") P.file_fault_from_ns = U(v) * MS;
    else if (k == "file_fault_to_ms") P.file_fault_to_ns = U(v) * MS;
    else if (k == "file_fault_for_ms") { P.file_fault_from_ns = now(); P.file_fault_to_ns = now() + U(v) * MS; }
    else if (k == "p_res_fault") P.p_res_fault = Dbl(v);
    else if (k == "res_fault_mask") P.res_fault_mask = U(v);
    else if (k == "res_fault_to_ms") P.res_fault_to_ns = U(v) * MS;
    else if (k == "res_fault_for_ms") P.res_fault_to_ns = now() + U(v) * MS;
    else if (k == "nprocs") P.nprocs = atoi(v.c_str());
    else if (k == "junk") P.junk = (uint8_t)U(v);
    else if (k == "disk_free") P.disk_free = U(v);
    else if (k == "fault_off") P.fault_off.push_back(U(v));
    else if (k == "memcheck") g_memcheck = U(v) != 0;
    else if (k == "replay_sched") P.replay_sched = U(v) != 0;
    else { fprintf(stderr, "unknown parameter %s\n", k.c_str()); _exit(70); }
}

// ---------------------------------------------------------------- clients
struct Slot { ConnP c; std::string buf; unsigned asked = 0, told = 0; };
struct Cl {
    Client *c; std::map<int, Slot> slots;

    void I(const Op &o) { hist("I %d %llu %llu %llu\n", o.id, (unsigned long long)next_seq(), (unsigned long long)now(), (unsigned long long)wall()); }
    void R(const Op &o, const std::string &raw)
    {
        std::string e = esc(raw);
        hist("R %d %llu %llu %llu ", o.id, (unsigned long long)next_seq(), (unsigned long long)now(), (unsigned long long)wall()); hist_raw(e.data(), e.size()); hist_raw("\n", 1);
    }
    void X(const Op &o, const char *why, const std::string &raw = "")
    {
        std::string e = esc(raw);
        hist("X %d %llu %llu %s ", o.id, (unsigned long long)next_seq(), (unsigned long long)now(), why); hist_raw(e.data(), e.size()); hist_raw("\n", 1);
    }
    Slot *conn(int slot, int port, uint64_t deadline)
    {
        Slot &s = slots[slot];
        if (s.c && net_eof(s.c)) drop(slot);
        if (slots[slot].c) return &slots[slot];
        for (;;)
        {
            slots[slot].c = net_connect(port);
            if (slots[slot].c) return &slots[slot];
            if (now() >= deadline) return nullptr;
            sleep_ns(200 * MS);
        }
    }
    void drop(int slot)
    {
        Slot &s = slots[slot];
        if (s.c) net_close(s.c, false);
        if (!s.buf.empty()) { std::string e = esc(s.buf); hist("J %d %d ", c->id, slot); hist_raw(e.data(), e.size()); hist_raw("\n", 1); }
        s = Slot();
    }
    // length of the first complete response in b, 0 = incomplete, -1 = not HTTP
    static long resp_len(const std::string &b)
    {
        size_t k = b.find("\r\n\r\n");
        if (b.size() >= 5 && b.compare(0, 5, "HTTP/") != 0) return -1;
        if (k == std::string::npos) return b.size() > 65536 ? -1 : 0;
        std::string h = b.substr(0, k + 2); for (auto &ch : h) ch = tolower(ch);
        size_t p = h.find("\r\ncontent-length:");
        size_t n = 0;
        if (p != std::string::npos) n = strtoul(h.c_str() + p + 17, nullptr, 10);
        else return k + 4;
        return b.size() >= k + 4 + n ? (long)(k + 4 + n) : 0;
    }
    void await(const Op &o, int slot, uint64_t deadline)
    {
        Slot *s = &slots[slot];
        for (;;)
        {
            long n = resp_len(s->buf);
            if (n < 0) { std::string r = s->buf; s->buf.clear(); drop(slot); X(o, "garbage", r); return; }
            if (n > 0) { std::string r = s->buf.substr(0, n); s->buf.erase(0, n); R(o, r); return; }
            if (now() >= deadline) { std::string r = s->buf; s->buf.clear(); drop(slot); X(o, "timeout", r); return; }
            if (!s->c) { X(o, "noconn"); return; }
            if (!net_recv(s->c, s->buf, deadline) && net_eof(s->c))
            {
                if (resp_len(s->buf) > 0) continue;
                std::string r = s->buf; s->buf.clear(); drop(slot); X(o, "eof", r); return;
            }
        }
    }
    void run()
    {
        for (size_t i = 0; i < c->ops.size(); i++) { exec(c->ops[i]); done_ops.insert(c->ops[i].id); wake_all(&done_ops); }
        c->done = true;
        wake_all(&done_ops);
        for (;;) sleep_ns(100000 * SEC);      // stay around so that connections stay open
    }
    void exec(const Op &o)
    {
        const std::string &k = o.kind; const auto &a = o.a;
        if (k == "http")
        {
            I(o);
            uint64_t dl = now() + U(a[2]) * MS;
            if (!conn(atoi(a[0].c_str()), atoi(a[1].c_str()), dl)) { X(o, "refused"); return; }
            net_send(slots[atoi(a[0].c_str())].c, unesc(a[3]));
            await(o, atoi(a[0].c_str()), dl);
        }
        else if (k == "send")
        {
            I(o);
            Slot &was = slots[atoi(a[0].c_str())];
            if (was.c && net_eof(was.c)) hist("N %d\n", o.id);    // the server has closed the connection
            Slot *s = conn(atoi(a[0].c_str()), atoi(a[1].c_str()), now() + 10 * SEC);
            if (!s) { X(o, "refused"); return; }
            net_send(s->c, unesc(a[2]));
        }
        else if (k == "recvhttp") { I(o); await(o, atoi(a[0].c_str()), now() + U(a[1]) * MS); }
        else if (k == "tbar")
        {
            I(o);
            int slot = atoi(a[0].c_str()); uint64_t dl = now() + U(a[2]) * MS;
            Slot *s = &slots[slot];
            if (!s->c) { X(o, "noconn"); return; }
            // A reply carries no identity, so count: once there are more replies than commands sent
            // before this barrier, at least one of this barrier's own commands has been answered.
            unsigned before = s->asked; std::string all;
            for (;;)
            {
                if (net_eof(s->c)) { drop(slot); X(o, "eof"); return; }
                net_send(s->c, "version\n"); s->asked++;
                uint64_t w = now() + SEC;
                while (now() < w && s->told <= before)
                {
                    std::string got;
                    if (!net_recv(s->c, got, w)) break;
                    for (char ch : got) s->told += ch == '}';
                    all += got;
                }
                if (s->told > before) { R(o, all); return; }
                if (now() >= dl) { X(o, "timeout", all); return; }
            }
        }
        else if (k == "drain")
        {
            I(o);
            int slot = atoi(a[0].c_str()); Slot *s = &slots[slot]; uint64_t dl = now() + U(a[1]) * MS;
            if (!s->c) { X(o, "noconn"); return; }
            while (now() < dl) if (!net_recv(s->c, s->buf, dl)) break;
            std::string r = s->buf; s->buf.clear();
            if (net_eof(s->c)) { drop(slot); X(o, "eof", r); } else R(o, r);
        }
        else if (k == "close") { int slot = atoi(a[0].c_str()); Slot &s = slots[slot]; if (s.c) { net_close(s.c, a[1] == "1"); drop(slot); } }
        else if (k == "shutwr") { Slot &s = slots[atoi(a[0].c_str())]; if (s.c) net_shutdown_wr(s.c); }
        else if (k == "slow") { Slot *s = conn(atoi(a[0].c_str()), atoi(a[1].c_str()), now() + 10 * SEC); if (s) net_set_slow(s->c, U(a[2])); }
        else if (k == "connect") { conn(atoi(a[0].c_str()), atoi(a[1].c_str()), now() + 10 * SEC); }
        else if (k == "udp") { I(o); udp_send(atoi(a[0].c_str()), unesc(a[2]), a[1] == "1", o.id); }
        else if (k == "sleep") { sleep_ns(U(a[0]) * MS + 1); }
        else if (k == "sleepu") { sleep_ns(U(a[0]) * US + 1); }
        else if (k == "jump") { I(o); long d = atol(a[0].c_str()); fault_fired(d > 0 ? F_CLOCK_FWD : F_CLOCK_BACK); wall_jump(d * (int64_t)MS); trace("clock jumps by %ld ms", d); }
        else if (k == "sig") { I(o); fault_fired(F_SIGTERM); trace("signal %s sent", a[0].c_str()); deliver_signal(atoi(a[0].c_str())); }
        else if (k == "kill") { I(o); trace("kill armed: %s steps / %s file operations", a[0].c_str(), a[1].c_str()); arm_crash(U(a[0]), U(a[1]), atoi(a[2].c_str())); }
        else if (k == "join")
        {
            for (auto &x : a) for (;;)
            {
                bool dn = true; for (auto &cl : life->clients) if (cl.id == atoi(x.c_str())) dn = cl.done;
                if (dn) break;
                wait_on(&done_ops, NEVER);
            }
        }
        else if (k == "wait")
        {
            int w = atoi(a[0].c_str()); uint64_t dl = now() + U(a[1]) * MS;
            while (!done_ops.count(w) && now() < dl) wait_on(&done_ops, dl);
        }
        else if (k == "setp") { I(o); set_param(a[0], a[1]); }
        else if (k == "mark") { I(o); }
        else if (k == "left")             // what the server still holds
        {
            I(o);
            static std::map<std::string, unsigned> by; static std::string last; by.clear();
            static uint64_t since = 0;
            if (a[0] == "0") since = heap_seq();
            Unreachable u = heap_unreachable(since, [](size_t n, uint64_t, void *const *site) { char b[40]; snprintf(b, sizeof b, "%zu bytes from ", n); by[b + site_text(site)]++; });
            std::string t; char b[160]; snprintf(b, sizeof b, "conns=%d blocks=%zu bytes=%zu live=%zu", net_orphans(), u.blocks, u.bytes, u.live); t = b;
            int k2 = 0; for (auto &x : by) { if (++k2 > 12) break; snprintf(b, sizeof b, "\n%u x ", x.second); t += b + x.first; }
            R(o, t);
        }
        else if (k == "end") { I(o); fault_fired(F_CRASH); end_life(END_STOPPED_EARLY, 0, "killed by the plan"); }
        else { fprintf(stderr, "unknown op %s\n", k.c_str()); end_life(END_HARNESS, 2, "unknown op %s", k.c_str()); }
    }
};

static const int ports[] = { 6180, 6181, 6182, 6183 };

static void client_main(Client *c)
{
    for (;;)
    {
        bool ok = true;
        for (int p : ports) if (!net_listening(p)) ok = false;
        if (ok) break;
        sleep_ns(20 * MS);
    }
    if (!sh->ready) { sh->ready = 1; sh->ready_ns = now(); hist("S %llu %llu\n", (unsigned long long)next_seq(), (unsigned long long)now()); trace("server is listening"); }
    Cl x; x.c = c; x.run();
}

static void write_file(const std::string &p, const std::string &s) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) { perror(p.c_str()); exit(70); } close(fd); }

static bool run_life(Life &l, int idx, FILE *out, FILE *tr, bool want_cov, bool want_dec)
{
    memset(sh, 0, offsetof(Shared, cov));
    memset(sh->cov, 0, sizeof sh->cov);
    sh->evcap = 48 << 20; sh->deccap = 2 << 20; sh->tracecap = 120 << 20;
    std::string conf;
    for (auto &kv : l.conf) conf += kv.first + " = " + kv.second + "\n";
    write_file("tt.conf", conf);
    fflush(out); if (tr) fflush(tr);
    pid_t p = fork();
    if (!p)
    {
        P = Params();
        P.scratch = "/S/"; P.time_cap_ns = 3600 * SEC; P.wall_base_ns = 1700000000ULL * SEC;
        g_memcheck = false;
        for (auto &kv : l.params) set_param(kv.first, kv.second);
        P.decisions = l.dec;
        life = &l; done_ops.clear();
        udp_delivered = [](uint64_t id) { hist("D %llu %llu %llu\n", (unsigned long long)id, (unsigned long long)next_seq(), (unsigned long long)now()); };
        osif_begin(); sim_begin();
        for (auto &c : l.clients) { char nm[20]; snprintf(nm, sizeof nm, "client%d", c.id); Client *cp = &c; spawn(nm, [cp]() { client_main(cp); }); }
        char a0[] = "tt", a1[] = "-c", a2[] = "/S/tt.conf", a3[] = "-q", a4[] = "-p", a5[] = "/S/tt.pid"; char *av[] = { a0, a1, a2, a3, a4, a5, nullptr };
        int r = tt_main(6, av);
        end_life(END_EXIT, r, "main returned %d", r);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { sh->end_kind = END_HARNESS; sh->end_code = WTERMSIG(st); snprintf(sh->end_msg, sizeof sh->end_msg, "simulator process died of signal %d", WTERMSIG(st)); }
    else if (sh->end_kind == END_NONE) { sh->end_kind = END_HARNESS; sh->end_code = WEXITSTATUS(st); snprintf(sh->end_msg, sizeof sh->end_msg, "simulator process ended without a result, status %x", st); }
    prev_end_wall = sh->end_wall_ns;
    fprintf(out, "L %d\n", idx);
    fwrite(sh_events, 1, sh->nev, out);
    fprintf(out, "E %u %d %llu %llu %llu %llu %llu %016llx %016llx %llu %u %llu %s\n", sh->end_kind, sh->end_code, (unsigned long long)sh->steps, (unsigned long long)sh->switches, (unsigned long long)sh->forced,
            (unsigned long long)sh->now_ns, (unsigned long long)sh->ready_ns, (unsigned long long)sh->hash, (unsigned long long)sh->sched_hash, (unsigned long long)sh->pairs, sh->ready, (unsigned long long)sh->ndec, esc(sh->end_msg).c_str());
    fprintf(out, "FC"); for (int i = 0; i < F_COUNT; i++) fprintf(out, " %llu", (unsigned long long)sh->faults[i]); fprintf(out, "\n");
    if (want_cov) { fprintf(out, "CV"); for (size_t i = 0; i < sizeof sh->cov; i++) if (sh->cov[i]) for (int b = 0; b < 8; b++) if (sh->cov[i] >> b & 1) fprintf(out, " %zx", i * 8 + b); fprintf(out, "\n"); }
    if (want_dec)
    {
        fprintf(out, "DC");
        for (uint64_t i = 0; i < sh->ndec && i < sh->deccap; i++) fprintf(out, " %llu,%d,%d,%u", (unsigned long long)sh_dec[i].step, sh_dec[i].tid, sh_dec[i].kind, sh_dec[i].stall_ms);
        fprintf(out, "\n");
    }
    if (tr) { fprintf(tr, "======== life %d\n", idx); fwrite(sh_trace, 1, sh->ntrace, tr); }
    return sh->end_kind != END_HARNESS;
}

int main(int argc, char **argv)
{
    // usage: ttsim plan out scratch [cov] [dec] [trace=FILE]
    if (argc < 4) { fprintf(stderr, "usage: ttsim plan out scratch [cov] [dec] [trace=FILE]\n"); return 70; }
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("TTSIM_NOEXEC"))
    {
        char v[] = "TTSIM_NOEXEC=1"; char *e[] = { v, nullptr };
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execve("/proc/self/exe", argv, e);
    }
    if (getenv("TTSIM_NOEXEC")) { char *e[] = { nullptr }; execve("/proc/self/exe", argv, e); }
    { int c = sched_getcpu(); cpu_set_t s; CPU_ZERO(&s); if (c >= 0) { CPU_SET(c, &s); sched_setaffinity(0, sizeof s, &s); } }
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    bool cov = false, dec = false; FILE *tr = nullptr;
    for (int i = 4; i < argc; i++)
    {
        if (!strcmp(argv[i], "cov")) cov = true;
        if (!strcmp(argv[i], "dec")) dec = true;
        if (!strncmp(argv[i], "trace=", 6)) { tr = fopen(argv[i] + 6, "w"); g_trace_on = true; }
    }
    FILE *f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 70; }
    FILE *out = fopen(argv[2], "w"); if (!out) { perror(argv[2]); return 70; }
    setvbuf(out, (char *)malloc(1 << 20), _IOFBF, 1 << 20);
    size_t sz = (1 << 20) + (48 << 20) + (2 << 20) * sizeof(Decision) + (120 << 20) + 65536;
    char *m = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); return 70; }
    sh = (Shared *)m; sh_events = m + (1 << 20); sh_dec = (Decision *)(sh_events + (48 << 20)); sh_trace = (char *)(sh_dec + (2 << 20));
    std::vector<Life> lives;
    char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0)
    {
        while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
        std::vector<std::string> t; char *sv = nullptr;
        for (char *w = strtok_r(line, " ", &sv); w; w = strtok_r(nullptr, " ", &sv)) t.push_back(w);
        if (t.empty() || t[0][0] == '#') continue;
        if (t[0] == "life") lives.emplace_back();
        else if (lives.empty()) { fprintf(stderr, "bad plan\n"); return 70; }
        else if (t[0] == "p") lives.back().params.push_back({ t[1], t[2] });
        else if (t[0] == "conf") lives.back().conf.push_back({ t[1], unesc(t[2]) });
        else if (t[0] == "client") { lives.back().clients.emplace_back(); lives.back().clients.back().id = atoi(t[1].c_str()); }
        else if (t[0] == "op") { Op o; o.id = atoi(t[1].c_str()); o.kind = t[2]; o.a.assign(t.begin() + 3, t.end()); o.a.resize(o.a.size() + 4); if (o.kind == "join") o.a.resize(t.size() - 3); lives.back().clients.back().ops.push_back(o); }
        else if (t[0] == "dec") { for (size_t i = 1; i < t.size(); i++) { Decision d; unsigned long long s; int tid, kind; unsigned ms; if (sscanf(t[i].c_str(), "%llu,%d,%d,%u", &s, &tid, &kind, &ms) == 4) { d.step = s; d.tid = tid; d.kind = kind; d.stall_ms = ms; lives.back().dec.push_back(d); } } }
        else { fprintf(stderr, "bad plan line %s\n", t[0].c_str()); return 70; }
    }
    fclose(f);
    if (chdir(argv[3])) { perror(argv[3]); return 70; }
    mkdir("data", 0755); mkdir("log", 0755);
    write_file("proc_meminfo", "MemTotal: 16000000 kB\nMemFree: 8000000 kB\nMemAvailable: 12000000 kB\nBuffers: 100 kB\nCached: 1000 kB\n");
    write_file("proc_self_stat", "4242 (tt) S 1 4242 4242 0 -1 4194304 1000 0 0 0 10 5 0 0 20 0 12 0 100 200000000 5000 18446744073709551615 1 1 0 0 0 0 0 0 0 0 0 0 17 1 0 0 0 0 0 0 0 0 0 0 0 0 0\n");
    write_file("proc_self_io", "rchar: 1000\nwchar: 1000\nsyscr: 10\nsyscw: 10\nread_bytes: 0\nwrite_bytes: 0\ncancelled_write_bytes: 0\n");
    int rc = 0;
    for (size_t i = 0; i < lives.size(); i++) if (!run_life(lives[i], (int)i, out, tr, cov, dec)) { rc = 71; break; }
    fprintf(out, "OK\n");
    fclose(out);
    if (tr) fclose(tr);
    return rc;
}
