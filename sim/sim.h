// Deterministic simulator: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <memory>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ULL + 0xD1B54A32D192ED03ULL) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return p > 0 && uni() < p; }
    Rng fork(uint64_t tag) { return Rng(next() ^ (tag * 0xBF58476D1CE4E5B9ULL)); }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x94D049BB133111EBULL)); return r.next(); }

static const uint64_t NEVER = ~0ULL;
static const uint64_t US = 1000ULL, MS = 1000000ULL, SEC = 1000000000ULL;

// ---------------------------------------------------------------- shared result area (survives the child)
enum EndKind { END_NONE = 0, END_EXIT = 1, END_CRASH = 2, END_SIGNAL = 3, END_TIMECAP = 4, END_STEPCAP = 5,
               END_MEMERR = 6, END_DEADLOCK = 7, END_SEGV = 8, END_ABORT = 9, END_HARNESS = 10, END_STOPPED_EARLY = 11 };

enum FaultKind {
    F_CRASH, F_CRASH_TORN, F_STOP, F_SIGTERM,
    F_WRITE_ENOSPC, F_WRITE_EIO, F_WRITE_SHORT, F_OPEN_FAIL, F_RENAME_FAIL, F_TRUNC_FAIL, F_MMAP_FAIL, F_MKDIR_FAIL,
    F_FALLOC_FAIL, F_READ_FAIL,
    F_ACCEPT_FAIL, F_EINTR, F_EMFILE, F_SEND_FAIL,
    F_NET_SEGMENT, F_NET_DELAY, F_NET_COALESCE, F_NET_RST, F_NET_FIN, F_NET_BACKPRESSURE, F_NET_SHORTSEND,
    F_UDP_LOSS, F_UDP_DUP, F_UDP_REORDER,
    F_CLOCK_FWD, F_CLOCK_BACK, F_STALL, F_PREEMPT, F_SLOWREAD, F_DIRORDER, F_CFGCHANGE,
    F_COUNT
};
extern const char *fault_names[F_COUNT];

struct Decision { uint64_t step; int16_t tid; uint16_t kind; uint32_t stall_ms; };   // schedule deviation; kind 0 sync point, 1 memory access, 2 block

struct Shared {
    uint32_t end_kind; int32_t end_code;
    char end_msg[2048];
    uint64_t steps, points, switches, forced, now_ns, end_wall_ns, start_ns, hash, sched_hash, pairs;
    uint64_t faults[F_COUNT];
    uint64_t probes[64];
    uint32_t ready;            // server reached service
    uint64_t ready_ns;
    uint64_t nev, evcap;       // history bytes used
    uint64_t ndec, deccap;
    uint64_t ntrace, tracecap; // human readable trace bytes
    // bitmap of distinct (point-kind, from-thread, to-thread) and code-site pairs
    uint8_t cov[1 << 16];
};
extern Shared *sh;
extern char *sh_events;      // history bytes
extern Decision *sh_dec;
extern char *sh_trace;

void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool g_trace_on;

// ---------------------------------------------------------------- simulation parameters for one life
struct Params {
    uint64_t seed = 1;
    uint64_t wall_base_ns = 0;      // wall clock at life start
    double p_switch = 0.1;          // switch probability at sync/syscall points
    uint64_t preempt_mean = 0;      // mean steps between preemptions (0 = off)
    double p_stall = 0;             // probability that a preempted/switched server thread is stalled
    uint64_t stall_max_ms = 0, stall_budget_ms = 20000;
    bool pct = false; int pct_changes = 0; uint64_t pct_len = 1000000;
    uint64_t crash_step = NEVER;    // kill at this step
    uint64_t crash_op_file = NEVER; // kill at n-th mutating file operation
    bool crash_torn = false;        // and leave the write torn
    uint64_t crash_op_dir = NEVER;  // kill at n-th rename or removal
    uint64_t crash_op_map = NEVER;  // kill before the n-th store into a mapped file
    uint64_t step_cap = 400000000ULL;
    uint64_t time_cap_ns = 0;       // virtual time cap (relative)
    bool replay_sched = false;      // take schedule from decisions
    std::vector<Decision> decisions;
    // network
    uint64_t net_delay_us = 200; double p_seg = 0.3; double p_coalesce = 0.1; int sndbuf = 65536; int seg_max = 1400; double p_bigdelay = 0;
    // disk faults
    double p_file_fault = 0; uint32_t file_fault_mask = 0; uint64_t file_fault_from_ns = 0, file_fault_to_ns = 0;
    uint32_t file_fault_classes = 0xffffffffu; int file_fault_sticky = 0;
    // resource faults
    double p_res_fault = 0; uint64_t res_fault_to_ns = 0; uint32_t res_fault_mask = 0xffffffffu;
    uint64_t disk_free = 1 << 23;   // blocks reported free
    int nprocs = 4;
    uint8_t junk = 0xA5;
    std::string scratch;            // only files below are subject to faults
    std::vector<uint64_t> fault_off; // masked fault indices (minimisation)
};
extern Params P;

// ---------------------------------------------------------------- threads / time
struct Thread;
extern bool g_on;
extern Thread *cur;
extern uint64_t g_steps;
uint64_t now();                     // virtual monotonic ns since boot
uint64_t wall();                    // virtual wall clock ns
void wall_jump(int64_t delta_ns);
void sim_begin();                   // current thread becomes the main thread
[[noreturn]] void end_life(EndKind k, int code, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
int spawn(const char *name, std::function<void()> fn);   // harness thread
void sleep_ns(uint64_t ns);         // harness sleep
void at(uint64_t t_ns, std::function<void()> fn);         // schedule an event
void after(uint64_t d_ns, std::function<void()> fn);
void point(int kind);               // scheduling point
bool wait_on(const void *obj, uint64_t deadline);         // block current; false = timed out
void wake_all(const void *obj);
void wake_one(const void *obj);
void activity();                    // something visible to pollers changed
void deliver_signal(int sig);       // to the main thread
void note_impure();
uint64_t next_seq();                // global event order
bool thread_is_server();
int cur_id();
const char *cur_name();
void fault_fired(FaultKind k);
void hash_in(uint64_t v);
void probe(int n);
void maybe_crash_file(const char *what);   // kill point before/after file ops
extern uintptr_t g_map_lo, g_map_sz;       // shared file mappings are placed in here
bool crash_here_torn(size_t n, size_t &part); // torn write decision
extern int g_nopreempt;
std::string backtrace_text();
std::string site_text(void *const *site);
struct NoPreempt { NoPreempt() { g_nopreempt++; } ~NoPreempt() { g_nopreempt--; } };

enum PointKind { PK_LOCK = 1, PK_UNLOCK, PK_RW, PK_COND, PK_FILE, PK_NET, PK_EPOLL, PK_SLEEP, PK_THREAD, PK_MEM, PK_CLIENT, PK_PIPE, PK_TIME, PK_MMAP };

// ---------------------------------------------------------------- network, client side
struct Conn;
typedef std::shared_ptr<Conn> ConnP;
bool net_listening(int port);
ConnP net_connect(int port);                        // nullptr = refused
void net_send(ConnP c, const std::string &bytes);   // asynchronous, segmented by the network
bool net_recv(ConnP c, std::string &out, uint64_t deadline);  // waits for >=1 byte; false on timeout/eof
bool net_eof(ConnP c);
void net_close(ConnP c, bool rst);
void net_shutdown_wr(ConnP c);
void net_set_slow(ConnP c, uint64_t bytes_per_sec);
bool net_server_closed(ConnP c);
void udp_send(int port, const std::string &bytes, bool lossy, uint64_t id);
extern std::function<void(uint64_t id)> udp_delivered;
extern std::function<void(int)> on_signal_kill;
void osif_begin();
int osif_open_fds();
int net_orphans();                  // connections the client has closed and the server still holds
std::string osif_diag();

} // namespace sim
