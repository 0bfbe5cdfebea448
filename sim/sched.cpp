// Scheduler, virtual time, interposed thread/lock/time primitives and the memory-access hooks.
#include "sim.h"
#include "alloc.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <queue>
#include <unordered_map>

namespace sim {

const char *fault_names[F_COUNT] = {
    "kill", "kill_torn_write", "stop_request", "sigterm",
    "write_enospc", "write_eio", "write_short", "open_fail", "rename_fail", "truncate_fail", "mmap_fail", "mkdir_fail",
    "fallocate_fail", "read_fail",
    "accept_fail", "eintr", "emfile", "send_fail",
    "net_segment", "net_delay", "net_coalesce", "net_reset", "net_close", "net_backpressure", "net_short_send",
    "udp_loss", "udp_dup", "udp_reorder",
    "clock_forward", "clock_backward", "thread_stall", "preemption", "slow_reader", "dir_order", "config_change" };

Shared *sh; char *sh_events; Decision *sh_dec; char *sh_trace;
Params P;
bool g_on = false, g_trace_on = false;
uint64_t g_steps = 0;
int g_nopreempt = 0;

static const uint64_t MONO_BASE = 1000 * SEC;
enum TState { T_RUN, T_BLOCK, T_DONE };
struct Thread {
    int id; char name[32]; bool server; TState st;
    uint64_t wake; const void *obj; bool timed_out; bool interrupted; bool stalled;
    int go;
    pthread_t real; void *(*fn)(void *); void *arg; std::function<void()> hfn;
    uintptr_t stk_lo, stk_sz;
    bool wrote, impure, exiting;
    bool elide; uint64_t poll_epoch, iter_epoch, period;
    uint64_t prio;
    uint32_t sigs, sigmask;
    void *cs[128]; int depth;
    char *alt; void *sp;
};
Thread *cur = nullptr;
static std::vector<Thread *> threads;
static Thread *main_thread;
static Thread *reap_me;

static uint64_t g_now, g_last_steps, g_epoch = 1, g_seq;
static int64_t g_wall_off;
static bool cur_wrote; static uintptr_t cur_stk_lo, cur_stk_sz;
static uint64_t g_next = 0, g_preempt_at = NEVER, g_quantum_at = NEVER, g_quantum = 400000;
static Rng srng, stall_rng;
static std::vector<uint64_t> pct_points; static size_t pct_idx; static uint64_t pct_low;
static size_t dec_idx;
static uint64_t file_ops, dir_ops, map_ops, g_stalled_ms;

struct Ev { uint64_t t, seq; std::function<void()> fn; };
struct EvCmp { bool operator()(const Ev *a, const Ev *b) const { return a->t != b->t ? a->t > b->t : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, EvCmp> evq;
static uint64_t ev_seq;

typedef void (*sighandler)(int);
static sighandler handlers[65];

static inline long futex(int *a, int op, int v) { return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0); }
static void park(Thread *t) { while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex(&t->go, FUTEX_WAIT_PRIVATE, 0); t->go = 0; }
static void release(Thread *t) { __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); futex(&t->go, FUTEX_WAKE_PRIVATE, 1); }

void hash_in(uint64_t v) { sh->hash = (sh->hash ^ v) * 0x100000001b3ULL; sh->hash ^= sh->hash >> 29; }
void probe(int n) { sh->probes[n]++; }
void fault_fired(FaultKind k) { sh->faults[k]++; hash_in(0xF000 + k); }
uint64_t next_seq() { return ++g_seq; }
bool thread_is_server() { return cur && cur->server; }
int cur_id() { return cur ? cur->id : -1; }
const char *cur_name() { return cur ? cur->name : "-"; }

static inline void tick()
{
    g_now += (g_steps - g_last_steps) * 2;
    g_last_steps = g_steps;
}
uint64_t now() { if (g_on) tick(); return g_now; }
uint64_t wall() { return P.wall_base_ns + now() + g_wall_off; }
void wall_jump(int64_t d) { g_wall_off += d; activity(); }

void trace(const char *fmt, ...)
{
    if (!g_trace_on || !sh || sh->ntrace + 600 > sh->tracecap) return;
    char b[512];
    int n = snprintf(b, sizeof b, "%12.6f s%-10llu %-14s ", now() / 1e9, (unsigned long long)g_steps, cur ? cur->name : "-");
    va_list ap; va_start(ap, fmt);
    n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    for (int i = 0; i < n; i++) if (b[i] == '\n' || b[i] == '\r') b[i] = '|';
    b[n++] = '\n';
    memcpy(sh_trace + sh->ntrace, b, n);
    sh->ntrace += n;
}

static void append_frame(std::string &s, void *pc)
{
    Dl_info di; char b[300];
    if (dladdr(pc, &di) && di.dli_sname) snprintf(b, sizeof b, "%s", di.dli_sname);
    else snprintf(b, sizeof b, "%p", pc);
    s += b;
}
static std::string backtrace_of(Thread *x)
{
    std::string s; if (!x) return s;
    struct Off { bool was = g_on; Off() { g_on = false; } ~Off() { g_on = was; } } off;   // std::string code may be the instrumented copy
    int d = x->depth; if (d > 127) d = 127;
    int n = 0;
    // cs[i] is the return address of the i-th frame, i.e. a pc in its caller
    for (int i = d - 1; i >= 0 && n < 8; i--, n++) { if (n) s += " < "; append_frame(s, (char *)x->cs[i] - 1); }
    return s;
}
std::string backtrace_text() { return backtrace_of(cur); }
static void trace_threads()
{
    if (!g_trace_on) return;
    for (Thread *x : threads) trace("%s is %s in %s", x->name, x->st == T_BLOCK ? "blocked" : "runnable", backtrace_of(x).c_str());
}

void end_life(EndKind k, int code, const char *fmt, ...)
{
    g_on = false;
    sh->end_kind = k; sh->end_code = code;
    va_list ap; va_start(ap, fmt); vsnprintf(sh->end_msg, sizeof sh->end_msg, fmt, ap); va_end(ap);
    g_now += (g_steps - g_last_steps) * 2;
    sh->steps = g_steps; sh->now_ns = g_now; sh->end_wall_ns = P.wall_base_ns + g_now + g_wall_off;
    if (k == END_TIMECAP || k == END_STEPCAP || k == END_DEADLOCK) trace_threads();
    if (g_trace_on) trace("END kind=%d code=%d %s", k, code, sh->end_msg);
    syscall(SYS_exit_group, 0);
    for (;;) ;
}

// ---------------------------------------------------------------- choosing who runs
static void set_next()
{
    uint64_t n = P.step_cap;
    if (P.replay_sched) while (dec_idx < P.decisions.size() && P.decisions[dec_idx].step <= g_steps) dec_idx++;
    if (P.crash_step < n) n = P.crash_step;
    if (g_preempt_at < n) n = g_preempt_at;
    if (g_quantum_at < n) n = g_quantum_at;
    if (P.replay_sched && dec_idx < P.decisions.size() && P.decisions[dec_idx].kind == 1 && P.decisions[dec_idx].step - 1 < n) n = P.decisions[dec_idx].step - 1;
    g_next = n;
}
static void new_preempt()
{
    if (P.replay_sched || !P.preempt_mean) { g_preempt_at = NEVER; return; }
    double u = srng.uni(); if (u < 1e-9) u = 1e-9;
    g_preempt_at = g_steps + 1 + (uint64_t)(-__builtin_log(u) * P.preempt_mean);
}

static void reap()
{
    if (reap_me) { Thread *t = reap_me; reap_me = nullptr; typedef int (*J)(pthread_t, void **); static J j = (J)dlsym(RTLD_NEXT, "pthread_join"); j(t->real, nullptr); g_nopreempt--; }
}

static void flush_wrote() { if (cur_wrote) { g_epoch++; cur_wrote = false; } }

static void switch_to(Thread *n)
{
    if (n == cur) return;
    Thread *me = cur;
    me->wrote = cur_wrote;
    sh->switches++;
    sh->sched_hash = (sh->sched_hash ^ (g_steps * 64 + n->id)) * 0x100000001b3ULL; sh->sched_hash ^= sh->sched_hash >> 31;
    hash_in(g_steps * 64 + n->id);
    {   // interleaving coverage: (function switched from, function switched to)
        uintptr_t a = me->depth > 0 ? (uintptr_t)me->cs[std::min(me->depth, 127) - 1] : me->id, b = n->depth > 0 ? (uintptr_t)n->cs[std::min(n->depth, 127) - 1] : n->id;
        uint32_t h = (uint32_t)(mix(a, b) & 0x7ffff);
        uint8_t bit = 1 << (h & 7);
        if (!(sh->cov[h >> 3] & bit)) { sh->cov[h >> 3] |= bit; sh->pairs++; }
    }
    cur = n; cur_wrote = n->wrote; cur_stk_lo = n->stk_lo; cur_stk_sz = n->stk_sz;
    g_quantum_at = g_steps + g_quantum; set_next();
    __builtin_unwind_init(); me->sp = __builtin_frame_address(0);
    release(n);
    if (me->exiting) return;
    park(me);
    reap();
}

static void run_due()
{
    tick();
    while (!evq.empty() && evq.top()->t <= g_now)
    {
        Ev *e = evq.top(); evq.pop();
        g_nopreempt++; e->fn(); g_nopreempt--;
        delete e;
    }
    for (Thread *t : threads)
        if (t->st == T_BLOCK && t->wake <= g_now)
        {
            if (t->elide)
            {
                if (t->poll_epoch == g_epoch && !t->sigs) continue;
                t->elide = false;
                uint64_t w = t->wake + (g_now - t->wake) / (t->period + 1) * t->period;   // keep the polling phase
                while (w < g_now) w += t->period ? t->period : 1;
                if (w > g_now) { t->wake = w; continue; }
            }
            t->st = T_RUN; t->timed_out = true; t->wake = NEVER; t->stalled = false;
        }
}
static uint64_t next_time()
{
    uint64_t n = evq.empty() ? NEVER : evq.top()->t;
    for (Thread *t : threads) if (t->st == T_BLOCK && t->wake < n && !(t->elide && t->poll_epoch == g_epoch)) n = t->wake;
    return n;
}

static void record(Thread *n, uint32_t stall, int kind)
{
    sh->forced++;
    if (sh->ndec < sh->deccap) { sh_dec[sh->ndec].step = g_steps; sh_dec[sh->ndec].tid = n ? n->id : -1; sh_dec[sh->ndec].kind = kind; sh_dec[sh->ndec].stall_ms = stall; }
    sh->ndec++;
}
static Thread *by_id(int id) { for (Thread *t : threads) if (t->id == id) return t; return nullptr; }
static const Decision *replay_decision(int kind)
{
    while (dec_idx < P.decisions.size() && P.decisions[dec_idx].step < g_steps) dec_idx++;
    if (dec_idx < P.decisions.size() && P.decisions[dec_idx].step == g_steps && P.decisions[dec_idx].kind == kind) return &P.decisions[dec_idx++];
    return nullptr;
}
static void cands(std::vector<Thread *> &v, bool with_cur)
{
    v.clear();
    for (Thread *t : threads) if (t->st == T_RUN && (with_cur || t != cur)) v.push_back(t);
}
static std::vector<Thread *> cv;
static Thread *round_robin()
{
    Thread *best = nullptr;
    for (Thread *t : cv) if (t->id > cur->id && (!best || t->id < best->id)) best = t;
    if (!best) for (Thread *t : cv) if (!best || t->id < best->id) best = t;
    return best;
}

static void check_caps()
{
    if (g_steps >= P.crash_step && !g_nopreempt)
    {
        fault_fired(F_CRASH);
        end_life(END_CRASH, 0, "killed at step %llu in %s: %s", (unsigned long long)g_steps, cur->name, backtrace_text().c_str());
    }
    if (g_steps >= P.step_cap) end_life(END_STEPCAP, 0, "step cap reached at %.3f s in %s: %s", g_now / 1e9, cur->name, backtrace_text().c_str());
    if (P.time_cap_ns && g_now >= P.time_cap_ns) end_life(END_TIMECAP, 0, "time cap reached at %.3f s", g_now / 1e9);
}

static void run_signals()
{
    while (cur->sigs)
    {
        int s = __builtin_ctz(cur->sigs); cur->sigs &= ~(1u << s);
        sighandler h = handlers[s];
        if (h && h != SIG_DFL && h != SIG_IGN) { trace("signal %d handler", s); h(s); cur->interrupted = true; }
    }
}

// block the current thread; returns false if the deadline passed
static bool block_cur(const void *obj, uint64_t deadline, bool elide = false, uint64_t period = 0)
{
    ++g_steps;
    cur->st = T_BLOCK; cur->obj = obj; cur->wake = deadline; cur->timed_out = false; cur->interrupted = false;
    flush_wrote();
    cur->elide = elide; cur->period = period; cur->poll_epoch = g_epoch;
    if (cur->sigs && !g_nopreempt) { cur->st = T_RUN; cur->wake = NEVER; cur->elide = false; }    // a signal came in on the way here
    for (;;)
    {
        run_due();
        check_caps();
        cands(cv, true);
        if (!cv.empty()) break;
        uint64_t t = next_time();
        if (t == NEVER)
        {
            std::string s;
            for (Thread *x : threads) if (x->st == T_BLOCK) { s += x->name; s += " "; }
            end_life(END_DEADLOCK, 0, "no runnable thread and no pending event; blocked: %s", s.c_str());
        }
        if (t > g_now) g_now = t;
    }
    Thread *d = round_robin(), *n = d;
    if (P.replay_sched) { if (const Decision *x = replay_decision(2)) { Thread *t = by_id(x->tid); if (t && t->st == T_RUN) { n = t; record(n, 0, 2); } } }
    else if (cv.size() > 1)
    {
        if (P.pct) { for (Thread *t : cv) if (t->prio > n->prio) n = t; }
        else n = cv[srng.below(cv.size())];
        if (n != d) record(n, 0, 2);
    }
    set_next();
    switch_to(n);
    bool ok = !cur->timed_out;
    cur->timed_out = false; cur->obj = nullptr;
    if (cur->sigs && !g_nopreempt) run_signals();
    return ok;
}

static void do_stall(uint32_t ms)
{
    fault_fired(F_STALL);
    trace("stall %u ms", ms);
    cur->stalled = true;
    ++g_steps;
    cur->st = T_BLOCK; cur->obj = &stall_rng; cur->wake = g_now + ms * MS; cur->timed_out = false; cur->elide = false;
    flush_wrote();
    for (;;)
    {
        run_due(); check_caps();
        cands(cv, true);
        if (!cv.empty()) break;
        uint64_t t = next_time();
        if (t > g_now) g_now = t;
    }
    Thread *n = round_robin();
    set_next();
    switch_to(n);
    cur->stalled = false; cur->timed_out = false; cur->obj = nullptr;
}

// a place where another thread may be chosen
static void sched_point(int kind, bool preempt)
{
    if (!g_on || g_nopreempt || cur->exiting) return;
    ++g_steps;
    g_now += 100;
    check_caps();
    run_due();
    if (cur->sigs) run_signals();
    uint32_t stall = 0; Thread *n = nullptr;
    const int dk = kind == PK_MEM;
    if (P.replay_sched)
    {
        if (const Decision *d = replay_decision(dk))
        {
            stall = d->stall_ms;
            if (d->tid >= 0) { Thread *t = by_id(d->tid); if (t && t->st == T_RUN) n = t; }
            if (dk) fault_fired(F_PREEMPT);
            if (stall || n || dk) record(n, stall, dk);
        }
    }
    else
    {
        bool sw = preempt;
        if (P.pct)
        {
            while (pct_idx < pct_points.size() && pct_points[pct_idx] <= g_steps) { pct_idx++; cur->prio = --pct_low; }
            cands(cv, true);
            Thread *b = cur; for (Thread *t : cv) if (t->prio > b->prio) b = t;
            sw = false;
            if (b != cur) n = b;
        }
        else if (!sw) sw = srng.chance(P.p_switch);
        if (P.p_stall > 0 && cur->server && (preempt || sw) && g_stalled_ms < P.stall_budget_ms && stall_rng.chance(P.p_stall))
        {
            stall = 1 + (uint32_t)stall_rng.below(P.stall_max_ms);
            g_stalled_ms += stall;
            n = nullptr;
        }
        else if (sw) { cands(cv, false); if (!cv.empty()) n = cv[srng.below(cv.size())]; }
        if (n || stall || dk) { if (dk) fault_fired(F_PREEMPT); record(n, stall, dk); }
    }
    if (stall) { set_next(); do_stall(stall); return; }
    if (n && n != cur) { flush_wrote(); switch_to(n); }
    else set_next();
    (void)kind;
}
void point(int kind) { sched_point(kind, false); }

static __attribute__((noinline)) void slow_step()
{
    if (g_nopreempt || cur->exiting) { g_next = g_steps + 1; return; }
    check_caps();
    if (P.replay_sched && dec_idx < P.decisions.size() && P.decisions[dec_idx].kind == 1 && P.decisions[dec_idx].step <= g_steps + 1)
    {
        if (P.decisions[dec_idx].step == g_steps + 1) sched_point(PK_MEM, true);     // increments g_steps to the recorded step
        else dec_idx++;
    }
    else if (g_steps >= g_preempt_at) { new_preempt(); sched_point(PK_MEM, true); }
    else if (g_steps >= g_quantum_at)
    {   // fairness: a thread that spins must not keep the others out; part of the default schedule
        run_due();
        if (P.pct) cur->prio = --pct_low;
        cands(cv, false);
        g_quantum_at = g_steps + g_quantum;
        if (!cv.empty()) { Thread *n = round_robin(); flush_wrote(); switch_to(n); }
    }
    set_next();
}

// ---------------------------------------------------------------- harness API
bool wait_on(const void *obj, uint64_t deadline) { return block_cur(obj, deadline); }
void wake_all(const void *obj)
{
    for (Thread *t : threads) if (t->st == T_BLOCK && t->obj == obj) { t->st = T_RUN; t->wake = NEVER; t->elide = false; }
}
void wake_one(const void *obj)
{
    for (Thread *t : threads) if (t->st == T_BLOCK && t->obj == obj) { t->st = T_RUN; t->wake = NEVER; return; }
}
void activity() { g_epoch++; }
void note_impure() { if (cur) cur->impure = true; }
void at(uint64_t t, std::function<void()> fn) { Ev *e = new Ev; e->t = t; e->seq = ++ev_seq; e->fn = std::move(fn); evq.push(e); }
void after(uint64_t d, std::function<void()> fn) { at(now() + d, std::move(fn)); }
void sleep_ns(uint64_t ns) { block_cur(nullptr, now() + ns); }
static void sig_default(int sig) { end_life(END_SIGNAL, sig, "terminated by signal %d in %s: %s", sig, cur->name, backtrace_text().c_str()); }
std::function<void(int)> on_signal_kill;
static uint32_t g_pending;
void deliver_signal(int sig)
{
    sighandler h = handlers[sig];
    if (h == SIG_IGN) return;
    Thread *t = nullptr;                // the main thread if it takes the signal, else any thread that does
    for (Thread *x : threads) if (x->server && x->st != T_DONE && !(x->sigmask >> sig & 1)) { t = x; if (x == main_thread) break; }
    if (!main_thread->exiting && !(main_thread->sigmask >> sig & 1)) t = main_thread;
    if (!t) { g_pending |= 1u << sig; return; }
    if (h == SIG_DFL || !h) { sig_default(sig); return; }
    t->sigs |= 1u << sig;
    if (t->st == T_BLOCK) { t->st = T_RUN; t->wake = NEVER; t->elide = false; }
}
void raise_current(int sig)
{
    sighandler h = handlers[sig];
    if (h == SIG_IGN) return;
    if (h == SIG_DFL || !h) sig_default(sig);
    h(sig);
}

void maybe_crash_file(const char *what)
{
    if (!g_on) return;
    ++file_ops; hash_in(0xA0 + file_ops);
    if (*what == 'r' || *what == 'u') ++dir_ops;
    if ((file_ops == P.crash_op_file && !P.crash_torn) || ((*what == 'r' || *what == 'u') && dir_ops == P.crash_op_dir))
    {
        fault_fired(F_CRASH);
        end_life(END_CRASH, 1, "killed at file operation %llu (%s) in %s: %s", (unsigned long long)file_ops, what, cur->name, backtrace_text().c_str());
    }
}
uintptr_t g_map_lo, g_map_sz;
static void map_store()
{
    if (++map_ops < P.crash_op_map || g_nopreempt) return;
    fault_fired(F_CRASH);
    end_life(END_CRASH, 2, "killed before store %llu into a mapped file in %s: %s", (unsigned long long)map_ops, cur->name, backtrace_text().c_str());
}
bool crash_here_torn(size_t n, size_t &part)
{
    if (file_ops != P.crash_op_file || !P.crash_torn || n < 2) return false;
    part = 1 + mix(P.seed, file_ops) % (n - 1);
    return true;
}

void arm_crash(uint64_t steps, uint64_t fileops, int torn)
{
    if (steps) P.crash_step = g_steps + steps;
    if (fileops && torn == 3) P.crash_op_map = map_ops + fileops;
    else if (fileops && torn == 2) P.crash_op_dir = dir_ops + fileops;
    else if (fileops) P.crash_op_file = file_ops + fileops;
    P.crash_torn = torn == 1;
    set_next();
}

static Thread *new_thread(const char *name, bool server)
{
    Thread *t = new Thread();
    t->id = (int)threads.size(); snprintf(t->name, sizeof t->name, "%s", name);
    t->server = server; t->st = T_RUN; t->wake = NEVER; t->obj = nullptr; t->go = 0; t->real = 0; t->fn = nullptr;
    t->timed_out = t->interrupted = t->wrote = t->impure = t->exiting = t->elide = t->stalled = false;
    t->sigs = 0; t->sigmask = server && cur && cur->server ? cur->sigmask : 0; t->depth = 0; t->period = t->poll_epoch = t->iter_epoch = 0; t->stk_lo = t->stk_sz = 0; t->alt = nullptr; t->sp = nullptr;
    t->prio = (1ULL << 32) + (srng.next() & 0xffffffff);
    threads.push_back(t);
    return t;
}

static void segv(int sig, siginfo_t *si, void *)
{
    if (!g_on) { signal(sig, SIG_DFL); syscall(SYS_exit_group, 71); }
    g_on = false;
    sh->faults[0] += 0;
    end_life(END_SEGV, sig, "real signal %d at address %p in %s: %s", sig, si->si_addr, cur ? cur->name : "?", backtrace_text().c_str());
}
static void setup_alt(Thread *t)
{
    t->alt = (char *)syscall(SYS_mmap, nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = t->alt; ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
}

static void *trampoline(void *p)
{
    Thread *t = (Thread *)p;
    park(t);
    reap();
    setup_alt(t);
    if (t->fn) t->fn(t->arg); else { t->hfn(); }
    // finished: hand over; the successor joins us for real before it continues
    ++g_steps;
    flush_wrote(); g_epoch++;
    t->st = T_DONE;
    wake_all(t);
    for (;;)
    {
        run_due(); check_caps(); cands(cv, false);
        if (!cv.empty()) break;
        uint64_t x = next_time();
        if (x == NEVER) end_life(END_DEADLOCK, 0, "no runnable thread after exit of %s", t->name);
        if (x > g_now) g_now = x;
    }
    Thread *n = round_robin();
    t->exiting = true;
    reap_me = t;
    g_nopreempt++;              // thread-exit code of libc runs before the successor continues; undone in reap()
    switch_to(n);
    return nullptr;
}

static int make_real(Thread *t)
{
    typedef int (*C)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    static C real = (C)dlsym(RTLD_NEXT, "pthread_create");
    size_t sz = 8u << 20;
    void *stk = (void *)syscall(SYS_mmap, nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stk, sz);
    t->stk_lo = (uintptr_t)stk; t->stk_sz = sz;
    int r = real(&t->real, &a, trampoline, t);
    pthread_attr_destroy(&a);
    return r;
}

int spawn(const char *name, std::function<void()> fn)
{
    Thread *t = new_thread(name, false);
    t->hfn = std::move(fn);
    if (make_real(t)) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(72); }
    return t->id;
}

void sim_begin()
{
    srng = Rng(mix(P.seed, 101)); stall_rng = Rng(mix(P.seed, 102));
    g_steps = 0; g_now = 0; g_last_steps = 0; sh->hash = 0xcbf29ce484222325ULL; sh->sched_hash = 0x1234567;
    g_junk = P.junk;
    main_thread = new_thread("main", true);
    cur = main_thread;
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    main_thread->stk_lo = sp - (8u << 20); main_thread->stk_sz = (8u << 20) + 65536;
    cur_stk_lo = main_thread->stk_lo; cur_stk_sz = main_thread->stk_sz;
    setup_alt(main_thread);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    typedef int (*S)(int, const struct sigaction *, struct sigaction *);
    S rs = (S)dlsym(RTLD_NEXT, "sigaction");
    rs(SIGSEGV, &sa, nullptr); rs(SIGBUS, &sa, nullptr); rs(SIGFPE, &sa, nullptr); rs(SIGILL, &sa, nullptr); rs(SIGABRT, &sa, nullptr);
    if (P.pct)
    {
        for (int i = 0; i < P.pct_changes; i++) pct_points.push_back(srng.below(P.pct_len));
        std::sort(pct_points.begin(), pct_points.end());
        pct_low = 1000000;
    }
    new_preempt();
    g_quantum_at = g_quantum;
    g_on = true;
    set_next();
}

void alloc_site(void **site)
{
    site[0] = site[1] = site[2] = nullptr;
    if (!g_on || !cur) return;
    int d = cur->depth; if (d > 127) d = 127;
    for (int i = 0; i < 3 && d - 1 - i >= 0; i++) site[i] = cur->cs[d - 1 - i];
}
std::string site_text(void *const *site)
{
    std::string s;
    for (int i = 0; i < 3 && site[i]; i++) { if (i) s += " < "; append_frame(s, (char *)site[i] - 1); }
    return s.empty() ? "?" : s;
}
uintptr_t stack_used(uintptr_t lo, uintptr_t hi)
{
    for (Thread *t : threads)
    {
        uintptr_t sp = t == cur ? (uintptr_t)__builtin_frame_address(0) : (uintptr_t)t->sp;
        if (!sp || !t->stk_lo || hi <= t->stk_lo || lo >= sp - 512) continue;
        return sp - 512 < hi ? sp - 512 : hi;
    }
    return lo;
}

void mem_report(const void *p, size_t n, bool write, const char *what)
{
    if (!g_on || !g_memcheck || !cur || !cur->server) return;
    char d[160]; mem_describe(p, d, sizeof d);
    end_life(END_MEMERR, 0, "invalid %s of %zu bytes (%s): %s; in %s: %s", write ? "write" : "read", n, what, d, cur->name, backtrace_text().c_str());
}

} // namespace sim

using namespace sim;

// ================================================================ memory-access hooks
#define HOT static inline __attribute__((always_inline))
HOT void touch(void *p, size_t n, bool write)
{
    if (__builtin_expect(!g_on, 0)) return;
    if (write && !cur_wrote && (uintptr_t)p - cur_stk_lo >= cur_stk_sz) cur_wrote = true;
    if (g_memcheck) mem_check(p, n, write);
    if (write && __builtin_expect((uintptr_t)p - g_map_lo < g_map_sz, 0)) map_store();
    if (__builtin_expect(++g_steps >= g_next, 0)) slow_step();
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *pc) { if (g_on && cur) { if (cur->depth >= 0 && cur->depth < 127) cur->cs[cur->depth] = pc; cur->depth++; } }
void __tsan_func_exit() { if (g_on && cur) { if (cur->depth > 0) cur->depth--; } }
#define RW(N) \
    void __tsan_read##N(void *p) { touch(p, N, false); } \
    void __tsan_write##N(void *p) { touch(p, N, true); } \
    void __tsan_unaligned_read##N(void *p) { touch(p, N, false); } \
    void __tsan_unaligned_write##N(void *p) { touch(p, N, true); } \
    void __tsan_volatile_read##N(void *p) { touch(p, N, false); } \
    void __tsan_volatile_write##N(void *p) { touch(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void *p) { touch(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void *p) { touch(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { touch(p, n, false); }
void __tsan_write_range(void *p, size_t n) { touch(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { touch(p, 8, true); (void)v; }
void __tsan_vptr_read(void **p) { touch(p, 8, false); }
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T *a, int) { touch((void *)a, B / 8, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile T *a, T v, int) { touch((void *)a, B / 8, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { touch((void *)a, B / 8, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { touch((void *)a, B / 8, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { touch((void *)a, B / 8, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { touch((void *)a, B / 8, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { touch((void *)a, B / 8, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { touch((void *)a, B / 8, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { touch((void *)a, B / 8, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { touch((void *)a, B / 8, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { touch((void *)a, B / 8, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { touch((void *)a, B / 8, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ================================================================ threads
int pthread_create(pthread_t *out, const pthread_attr_t *, void *(*fn)(void *), void *arg)
{
    if (!g_on) { typedef int (*C)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); static C real = (C)dlsym(RTLD_NEXT, "pthread_create"); return real(out, nullptr, fn, arg); }
    char nm[16]; snprintf(nm, sizeof nm, "t%zu", threads.size());
    Thread *t = new_thread(nm, true);
    t->fn = fn; t->arg = arg;
    cur_wrote = true;
    int r = make_real(t);
    *out = t->real;
    point(PK_THREAD);
    return r;
}
static Thread *find_real(pthread_t p) { for (size_t i = threads.size(); i-- > 0;) if (threads[i]->real == p) return threads[i]; return nullptr; }
int pthread_join(pthread_t p, void **ret)
{
    if (!g_on) { typedef int (*J)(pthread_t, void **); static J j = (J)dlsym(RTLD_NEXT, "pthread_join"); return j(p, ret); }
    point(PK_THREAD);
    Thread *t = find_real(p);
    if (!t) return ESRCH;
    cur->impure = true;
    while (t->st != T_DONE) block_cur(t, NEVER);
    if (ret) *ret = nullptr;
    return 0;
}
int pthread_detach(pthread_t p) { if (!g_on) { typedef int (*J)(pthread_t); static J j = (J)dlsym(RTLD_NEXT, "pthread_detach"); return j(p); } return 0; }

// ================================================================ mutex / condvar / rwlock / once guards
struct SimMutex { int owner, count; int pad[2]; int kind; };
int pthread_mutex_lock(pthread_mutex_t *pm)
{
    if (!g_on) return 0;
    SimMutex *m = (SimMutex *)pm;
    if (g_nopreempt == 0) point(PK_LOCK);
    cur_wrote = true;
    int me = cur->id + 1;
    if (m->owner == me && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    while (m->owner) block_cur(m, NEVER);
    m->owner = me; m->count = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *pm)
{
    if (!g_on) return 0;
    SimMutex *m = (SimMutex *)pm;
    point(PK_LOCK);
    int me = cur->id + 1;
    if (m->owner == me && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    if (m->owner) return EBUSY;
    cur_wrote = true;
    m->owner = me; m->count = 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *pm)
{
    if (!g_on) return 0;
    SimMutex *m = (SimMutex *)pm;
    cur_wrote = true;
    if (--m->count > 0) return 0;
    m->owner = 0; m->count = 0;
    wake_all(m);
    point(PK_UNLOCK);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); ((SimMutex *)m)->kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }

static int cond_wait_until(pthread_cond_t *c, pthread_mutex_t *pm, uint64_t deadline)
{
    SimMutex *m = (SimMutex *)pm;
    cur_wrote = true;
    int cnt = m->count;
    m->owner = 0; m->count = 0; wake_all(m);
    bool ok = block_cur(c, deadline);
    while (m->owner) block_cur(m, NEVER);
    m->owner = cur->id + 1; m->count = cnt;
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!g_on) return 0; point(PK_COND); return cond_wait_until(c, m, NEVER); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
    if (!g_on) return ETIMEDOUT;
    point(PK_COND);
    uint64_t t = ts->tv_sec * SEC + ts->tv_nsec, w = wall();
    return cond_wait_until(c, m, t > w ? now() + (t - w) : now());
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *ts)
{
    if (!g_on) return ETIMEDOUT;
    if (id == CLOCK_REALTIME) return pthread_cond_timedwait(c, m, ts);
    point(PK_COND);
    uint64_t t = ts->tv_sec * SEC + ts->tv_nsec;
    return cond_wait_until(c, m, t > MONO_BASE ? t - MONO_BASE : 0);
}
int pthread_cond_signal(pthread_cond_t *c) { if (!g_on) return 0; cur_wrote = true; wake_one(c); point(PK_COND); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!g_on) return 0; cur_wrote = true; wake_all(c); point(PK_COND); return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

struct SimRw { int writer, readers, wwait, prefer; };
int pthread_rwlock_init(pthread_rwlock_t *p, const pthread_rwlockattr_t *a)
{
    memset(p, 0, sizeof *p);
    if (a) { int k = 0; pthread_rwlockattr_getkind_np(a, &k); ((SimRw *)p)->prefer = (k == PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP); }
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *p)
{
    if (!g_on) return 0;
    SimRw *l = (SimRw *)p;
    point(PK_RW);
    cur_wrote = true;
    while (l->writer || (l->prefer && l->wwait > 0)) block_cur(l, NEVER);
    l->readers++;
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *p)
{
    if (!g_on) return 0;
    SimRw *l = (SimRw *)p; point(PK_RW);
    if (l->writer || (l->prefer && l->wwait > 0)) return EBUSY;
    cur_wrote = true; l->readers++; return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *p)
{
    if (!g_on) return 0;
    SimRw *l = (SimRw *)p;
    point(PK_RW);
    cur_wrote = true;
    while (l->writer || l->readers > 0) { l->wwait++; block_cur(l, NEVER); l->wwait--; }
    l->writer = cur->id + 1;
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *p)
{
    if (!g_on) return 0;
    SimRw *l = (SimRw *)p; point(PK_RW);
    if (l->writer || l->readers > 0) return EBUSY;
    cur_wrote = true; l->writer = cur->id + 1; return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *p)
{
    if (!g_on) return 0;
    SimRw *l = (SimRw *)p;
    cur_wrote = true;
    if (l->writer == cur->id + 1) l->writer = 0;
    else if (l->readers > 0) l->readers--;
    else l->writer = 0;
    wake_all(l);
    point(PK_RW);
    return 0;
}

int __cxa_guard_acquire(long long *g)
{
    uint8_t *b = (uint8_t *)g;
    if (b[0]) return 0;
    if (!g_on) { b[1] = 1; return 1; }
    while (b[1]) { block_cur(g, NEVER); if (b[0]) return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long *g) { uint8_t *b = (uint8_t *)g; b[0] = 1; b[1] = 0; if (g_on) { cur_wrote = true; wake_all(g); } }
void __cxa_guard_abort(long long *g) { uint8_t *b = (uint8_t *)g; b[1] = 0; if (g_on) wake_all(g); }

// ================================================================ time
static int sim_sleep(uint64_t ns)
{
    // nothing may have changed since this iteration of the polling loop began
    bool pure = !cur_wrote && !cur->impure && ns > 0 && cur->server && cur->iter_epoch == g_epoch;
    bool ok = block_cur(nullptr, now() + ns, pure, ns);
    (void)ok;
    cur->impure = false; cur_wrote = false; cur->iter_epoch = g_epoch;
    return cur->interrupted ? -1 : 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem)
{
    if (!g_on) { return syscall(SYS_nanosleep, r, rem); }
    uint64_t ns = r->tv_sec * SEC + r->tv_nsec, t0 = now();
    if (sim_sleep(ns) == 0) return 0;
    uint64_t el = now() - t0, left = el < ns ? ns - el : 0;
    if (rem) { rem->tv_sec = left / SEC; rem->tv_nsec = left % SEC; }
    errno = EINTR;
    return -1;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *r, struct timespec *rem)
{
    if (!g_on) return syscall(SYS_clock_nanosleep, id, flags, r, rem);
    uint64_t ns = r->tv_sec * SEC + r->tv_nsec;
    if (flags & TIMER_ABSTIME) { uint64_t n = id == CLOCK_REALTIME ? wall() : now() + MONO_BASE; ns = ns > n ? ns - n : 0; }
    sim_sleep(ns);
    return 0;
}
int usleep(useconds_t u) { if (!g_on) { struct timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return syscall(SYS_nanosleep, &t, nullptr); } sim_sleep(u * US); return 0; }
unsigned sleep(unsigned s) { if (!g_on) { struct timespec t = { (time_t)s, 0 }; return syscall(SYS_nanosleep, &t, nullptr); } sim_sleep(s * SEC); return 0; }
int sched_yield() { if (!g_on) return 0; g_now += 1000; sched_point(PK_SLEEP, true); return 0; }

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (!g_on) return syscall(SYS_clock_gettime, id, ts);
    cur->impure = true;
    uint64_t t = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? wall() : now() + MONO_BASE;
    ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
    return 0;
}
int gettimeofday(struct timeval *tv, void *)
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

// ================================================================ signals, abort, exit
sighandler signal(int s, sighandler h)
{
    if (!g_on) { typedef sighandler (*S)(int, sighandler); static S r = (S)dlsym(RTLD_NEXT, "signal"); return r(s, h); }
    if (s < 1 || s > 31 || s == SIGKILL || s == SIGSTOP) { errno = EINVAL; return SIG_ERR; }
    sighandler o = handlers[s]; handlers[s] = h; return o;
}
int sigaction(int s, const struct sigaction *a, struct sigaction *o)
{
    if (!g_on) { typedef int (*S)(int, const struct sigaction *, struct sigaction *); static S r = (S)dlsym(RTLD_NEXT, "sigaction"); return r(s, a, o); }
    if (s < 1 || s > 31) { errno = EINVAL; return -1; }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = handlers[s]; }
    if (a) handlers[s] = a->sa_handler;
    return 0;
}
int pthread_sigmask(int how, const sigset_t *a, sigset_t *o)
{
    if (!g_on) { typedef int (*S)(int, const sigset_t *, sigset_t *); static S r = (S)dlsym(RTLD_NEXT, "pthread_sigmask"); return r(how, a, o); }
    uint32_t old = cur->sigmask, m = 0;
    if (o) { sigemptyset(o); for (int i = 1; i < 32; i++) if (old >> i & 1) sigaddset(o, i); }
    if (!a) return 0;
    for (int i = 1; i < 32; i++) if (sigismember(a, i)) m |= 1u << i;
    cur->sigmask = how == SIG_BLOCK ? old | m : how == SIG_UNBLOCK ? old & ~m : m;
    uint32_t p = g_pending & ~cur->sigmask; g_pending &= ~p;
    for (int i = 1; i < 32; i++) if (p >> i & 1) deliver_signal(i);
    if (cur->sigs && !g_nopreempt) run_signals();
    return 0;
}
int sigprocmask(int how, const sigset_t *a, sigset_t *o)
{
    if (!g_on) { typedef int (*S)(int, const sigset_t *, sigset_t *); static S r = (S)dlsym(RTLD_NEXT, "sigprocmask"); return r(how, a, o); }
    return pthread_sigmask(how, a, o);
}
void abort()
{
    if (g_on) end_life(END_ABORT, 6, "abort() in %s: %s", cur->name, backtrace_text().c_str());
    syscall(SYS_exit_group, 73); for (;;) ;
}
void __stack_chk_fail()
{
    if (g_on) end_life(END_MEMERR, 1, "stack buffer overflow detected in %s: %s", cur->name, backtrace_text().c_str());
    syscall(SYS_exit_group, 74); for (;;) ;
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *)
{
    if (g_on) end_life(END_ABORT, 6, "assertion %s at %s:%u in %s", e, f, l, cur->name);
    fprintf(stderr, "assert %s %s:%u\n", e, f, l); syscall(SYS_exit_group, 73); for (;;) ;
}
void exit(int code)
{
    if (g_on) end_life(END_EXIT, code, "exit(%d) called in %s: %s", code, cur->name, backtrace_text().c_str());
    typedef void (*E)(int); E r = (E)dlsym(RTLD_NEXT, "exit"); r(code); for (;;) ;
}
int rand()
{
    if (!g_on) { return 4; }
    static uint64_t n; return (int)(mix(P.seed ^ 0x7a11, ++n) & 0x7fffffff);
}
void srand(unsigned) {}
}
