// Interposed operating-system interface: files (real, with faults and kill points) and network (modelled).
#include "sim.h"
#include "alloc.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <netinet/in.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <list>
#include <set>
#include <unordered_map>

namespace sim {

void raise_current(int sig);

// ---------------------------------------------------------------- objects behind simulated descriptors
struct Epoll;
struct Obj {
    enum Kind { LISTEN, CONN, PIPE_R, PIPE_W, EPOLL, UDP, RAWSOCK } kind;
    int fds = 0;                       // descriptors referring to it
    std::vector<std::pair<Epoll *, int>> regs;
    explicit Obj(Kind k) : kind(k) {}
    virtual ~Obj() {}
    virtual uint32_t ready() { return 0; }
    virtual void last_close() {}
};
typedef std::shared_ptr<Obj> ObjP;

struct Reg { std::weak_ptr<Obj> obj; uint32_t events; epoll_data_t data; bool armed; uint64_t order; };
struct Epoll : Obj {
    std::map<int, Reg> regs_;
    Epoll() : Obj(EPOLL) {}
};
static uint64_t arm_order;

static void notify(Obj *o)
{
    for (auto &r : o->regs)
    {
        auto it = r.first->regs_.find(r.second);
        if (it != r.first->regs_.end()) { if (!it->second.armed) { it->second.armed = true; it->second.order = ++arm_order; } wake_all(r.first); }
    }
    wake_all(o);
    activity();
}

struct Conn : Obj {
    int idx; int port;
    // client -> server
    std::string srx; bool fin_in = false, rst_in = false; int err = 0;
    bool peer_closed = false;          // client closed entirely: data from the server will be answered by RST
    uint64_t last_arrival = 0;
    // server -> client
    std::string tx; int sndbuf; bool srv_closed = false, srv_fin_sent = false;
    std::string crx; bool c_eof = false, c_rst = false, c_closed = false; bool moving = false;
    uint64_t rate = 0;                 // bytes per second accepted by the reader, 0 = unlimited
    bool accepted = false; unsigned full = 0;   // refused sends in a row
    Rng rng;
    Conn() : Obj(CONN), idx(0), port(0), sndbuf(65536), rng(1) {}
    uint32_t ready() override
    {
        uint32_t e = 0;
        if (!srx.empty() || fin_in || rst_in || err) e |= EPOLLIN;
        if (fin_in || rst_in) e |= EPOLLRDHUP;
        if (rst_in) e |= EPOLLHUP | EPOLLERR;
        if ((int)tx.size() < sndbuf) e |= EPOLLOUT;
        return e;
    }
    void last_close() override;
    void pump();
    std::weak_ptr<Conn> self;
};

struct Listener : Obj {
    int port = 0; bool listening = false; std::deque<ConnP> backlog;
    Listener() : Obj(LISTEN) {}
    uint32_t ready() override { return backlog.empty() ? 0 : EPOLLIN; }
    void last_close() override;
};
struct Pipe { std::string buf; Obj *r = nullptr, *w = nullptr; };
struct PipeEnd : Obj {
    std::shared_ptr<Pipe> p;
    PipeEnd(Kind k, std::shared_ptr<Pipe> q) : Obj(k), p(q) { if (k == PIPE_R) p->r = this; else p->w = this; }
    uint32_t ready() override { if (kind == PIPE_R) return (p->buf.empty() ? 0 : EPOLLIN) | (p->w ? 0 : EPOLLHUP); return EPOLLOUT; }
    void last_close() override { if (kind == PIPE_R) p->r = nullptr; else { p->w = nullptr; if (p->r) notify(p->r); } }
};
struct UdpSock : Obj {
    int port = 0; struct D { std::string b; uint64_t id; }; std::deque<D> q;
    UdpSock() : Obj(UDP) {}
    uint32_t ready() override { return q.empty() ? 0 : EPOLLIN; }
    void last_close() override;
};

static const int MAXFD = 70000;
struct FdInfo { ObjP obj; std::string path; bool file = false; };
static FdInfo *fdt;
static std::map<int, Listener *> listeners;
static std::multimap<int, UdpSock *> udps;
static int conn_count;
static Rng frng, nrng, rrng;
static uint64_t fault_idx; static bool sticky_on; static int sticky_errno;
std::function<void(uint64_t)> udp_delivered;

void osif_begin()
{
    if (!fdt) fdt = new FdInfo[MAXFD];
    frng = Rng(mix(P.seed, 201)); nrng = Rng(mix(P.seed, 202)); rrng = Rng(mix(P.seed, 203));
}
static inline Obj *obj_of(int fd) { return (g_on && fdt && fd >= 0 && fd < MAXFD) ? fdt[fd].obj.get() : nullptr; }
template <class T> static std::shared_ptr<T> as(int fd, Obj::Kind k)
{
    Obj *o = obj_of(fd);
    if (!o || o->kind != k) return nullptr;
    return std::static_pointer_cast<T>(fdt[fd].obj);
}
static int new_fd(ObjP o)
{
    int fd = syscall(SYS_eventfd2, 0, EFD_CLOEXEC);
    if (fd < 0) return -1;
    o->fds++;
    fdt[fd].obj = o; fdt[fd].file = false; fdt[fd].path.clear();
    return fd;
}
static void drop_fd(int fd)
{
    ObjP o = fdt[fd].obj;
    fdt[fd].obj.reset();
    if (!o) return;
    if (--o->fds == 0)
    {
        for (auto &r : o->regs) r.first->regs_.erase(r.second);
        o->regs.clear();
        if (o->kind == Obj::EPOLL)
        {
            Epoll *e = (Epoll *)o.get();
            for (auto &x : e->regs_) if (auto t = x.second.obj.lock())
                t->regs.erase(std::remove_if(t->regs.begin(), t->regs.end(), [&](const std::pair<Epoll *, int> &p) { return p.first == e; }), t->regs.end());
        }
        o->last_close();
    }
}
// Connections the server still holds a minute after it was told that the client has gone.
int net_orphans()
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++) if (fdt[i].obj && fdt[i].obj->kind == Obj::CONN)
    {
        Conn *c = (Conn *)fdt[i].obj.get();
        if (c->c_closed && (c->fin_in || c->rst_in) && c->last_arrival + 60000 * MS < now()) { n++; trace("conn %d is still held as fd %d", c->idx, i); }
    }
    return n;
}
int osif_open_fds() { int n = 0; for (int i = 0; i < 4096; i++) if (fdt[i].obj || fdt[i].file) n++; return n; }

// ---------------------------------------------------------------- network model
void Listener::last_close()
{
    auto it = listeners.find(port);
    if (it != listeners.end() && it->second == this) listeners.erase(it);
    for (auto &c : backlog) { c->c_rst = true; c->c_eof = true; wake_all(c.get()); }
    backlog.clear();
}
void UdpSock::last_close() { for (auto it = udps.begin(); it != udps.end(); ++it) if (it->second == this) { udps.erase(it); break; } }

static uint64_t net_delay(Rng &r)
{
    uint64_t d = 20 * US + r.below(P.net_delay_us * US + 1);
    if (r.chance(P.p_bigdelay)) { d += r.below(3000) * MS; fault_fired(F_NET_DELAY); }
    return d;
}

bool net_listening(int port) { auto it = listeners.find(port); return it != listeners.end() && it->second->listening; }

ConnP net_connect(int port)
{
    auto it = listeners.find(port);
    if (it == listeners.end() || !it->second->listening) return nullptr;
    ConnP c = std::make_shared<Conn>();
    c->self = c;
    c->idx = ++conn_count; c->port = port; c->sndbuf = P.sndbuf;
    c->rng = Rng(mix(P.seed, 5000 + c->idx));
    uint64_t t = now() + net_delay(c->rng);
    c->last_arrival = t;
    at(t, [c, port]() {
        auto it = listeners.find(port);
        if (it == listeners.end()) { c->c_rst = c->c_eof = true; wake_all(c.get()); return; }
        it->second->backlog.push_back(c);
        notify(it->second);
    });
    return c;
}

static void arrive(ConnP c, std::string seg)
{
    if (c->srv_closed || c->rst_in) { if (c->srv_closed && !c->c_closed) { c->c_rst = c->c_eof = true; wake_all(c.get()); } return; }
    c->srx += seg;
    notify(c.get());
}

void net_send(ConnP c, const std::string &bytes)
{
    size_t i = 0;
    uint64_t t = std::max(now() + 1, c->last_arrival);
    bool whole = c->rng.chance(0.3);
    while (i < bytes.size())
    {
        size_t n = bytes.size() - i;
        if (!whole)
        {
            if (c->rng.chance(P.p_seg)) { size_t m = 1 + c->rng.below(std::min<size_t>(n, c->rng.chance(0.5) ? 16 : P.seg_max)); if (m < n) { n = m; fault_fired(F_NET_SEGMENT); } }
            else if (n > (size_t)P.seg_max) n = P.seg_max;
        }
        std::string seg = bytes.substr(i, n);
        i += n;
        if (c->rng.chance(P.p_coalesce)) fault_fired(F_NET_COALESCE);   // arrives together with the previous one
        else t += net_delay(c->rng);
        at(t, [c, seg]() { arrive(c, seg); });
    }
    c->last_arrival = t;
    trace("client sends %zu bytes on conn %d: %.120s", bytes.size(), c->idx, bytes.c_str());
}

// move bytes from the server's send buffer to the client
void Conn::pump()
{
    if (moving || tx.empty()) { if (tx.empty() && srv_closed && !srv_fin_sent) { srv_fin_sent = true; ConnP me = self.lock(); after(net_delay(rng), [me]() { me->c_eof = true; wake_all(me.get()); activity(); }); } return; }
    moving = true;
    size_t n = tx.size();
    if (rng.chance(P.p_seg)) n = 1 + rng.below(n);
    uint64_t d = net_delay(rng);
    if (rate) { if (n > 256) n = 256; d += n * SEC / rate; }
    ConnP me = self.lock();
    after(d, [me, n]() {
        me->moving = false;
        size_t k = std::min(n, me->tx.size());
        if (me->c_closed)
        {   // nobody there any more
            me->tx.clear();
            if (!me->rst_in) { me->rst_in = true; me->err = me->fin_in ? EPIPE : ECONNRESET; notify(me.get()); }
            return;
        }
        me->crx.append(me->tx, 0, k);
        me->tx.erase(0, k);
        wake_all(me.get());
        notify(me.get());
        me->pump();
    });
}
void Conn::last_close()
{
    srv_closed = true;
    ConnP me = self.lock();
    if (!srx.empty() && !c_closed)
    {   // closing with unread data resets the connection
        after(net_delay(rng), [me]() { me->c_rst = me->c_eof = true; wake_all(me.get()); });
        tx.clear();
        return;
    }
    pump();
}
bool net_recv(ConnP c, std::string &out, uint64_t deadline)
{
    point(PK_CLIENT);
    for (;;)
    {
        if (!c->crx.empty()) { out += c->crx; c->crx.clear(); return true; }
        if (c->c_eof) return false;
        if (!wait_on(c.get(), deadline)) return false;
    }
}
bool net_eof(ConnP c) { return c->c_eof && c->crx.empty(); }
bool net_server_closed(ConnP c) { return c->srv_closed; }
void net_close(ConnP c, bool rst)
{
    if (c->c_closed) return;
    c->c_closed = true;
    fault_fired(rst ? F_NET_RST : F_NET_FIN);
    uint64_t t = std::max(now(), c->last_arrival) + net_delay(c->rng);
    if (rst && c->rng.chance(0.5)) t = now() + net_delay(c->rng);   // overtakes queued data
    c->last_arrival = t;
    at(t, [c, rst]() {
        if (c->srv_closed) return;
        if (rst) { c->rst_in = true; c->err = ECONNRESET; c->srx.clear(); }
        else c->fin_in = true;
        notify(c.get());
    });
}
void net_shutdown_wr(ConnP c)
{
    uint64_t t = std::max(now(), c->last_arrival) + net_delay(c->rng);
    c->last_arrival = t;
    at(t, [c]() { if (!c->srv_closed) { c->fin_in = true; notify(c.get()); } });
}
void net_set_slow(ConnP c, uint64_t r) { c->rate = r; fault_fired(F_SLOWREAD); }

void udp_send(int port, const std::string &bytes, bool lossy, uint64_t id)
{
    if (lossy && nrng.chance(0.15)) { fault_fired(F_UDP_LOSS); return; }
    int copies = 1;
    if (lossy && nrng.chance(0.15)) { copies = 2; fault_fired(F_UDP_DUP); }
    for (int i = 0; i < copies; i++)
    {
        uint64_t d = net_delay(nrng);
        if (lossy && nrng.chance(0.2)) { d += nrng.below(50) * MS; fault_fired(F_UDP_REORDER); }
        after(d, [port, bytes, id]() {
            auto r = udps.equal_range(port);
            int n = std::distance(r.first, r.second);
            if (!n) return;
            auto it = r.first; std::advance(it, nrng.below(n));
            it->second->q.push_back({ bytes, id });
            notify(it->second);
        });
    }
}

// ---------------------------------------------------------------- file faults
enum FileClass { FC_DATA = 1, FC_HEADER = 2, FC_INDEX = 4, FC_WAL = 8, FC_META = 16, FC_CONFIG = 32, FC_CP = 64, FC_ROLLUP = 128, FC_OTHER = 256, FC_LOG = 512 };
static uint32_t file_class(const char *p)
{
    const char *b = strrchr(p, '/'); b = b ? b + 1 : p;
    if (strstr(p, "/log/")) return FC_LOG;
    if (strstr(p, "rollup")) return FC_ROLLUP;
    if (strstr(p, "/WAL")) return FC_WAL;
    if (!strncmp(b, "data.", 5)) return FC_DATA;
    if (!strncmp(b, "header.", 7)) return FC_HEADER;
    if (!strcmp(b, "index")) return FC_INDEX;
    if (!strcmp(b, "metrics") || !strcmp(b, "ts")) return FC_META;
    if (!strcmp(b, "config")) return FC_CONFIG;
    size_t n = strlen(b);
    if ((n > 3 && !strcmp(b + n - 3, ".cp")) || !strcmp(b, "cp.tmp")) return FC_CP;
    return FC_OTHER;
}
// The server sees its files below the virtual root "/S/"; they live in the current directory (the scratch directory).
// Nothing outside may be changed: such an attempt ends the run as an error of the harness.
static bool in_scratch(const char *p) { return g_on && p && !strncmp(p, P.scratch.c_str(), P.scratch.size()) && !strstr(p, "/../"); }
static const char *phys(const char *p) { return !g_on || strncmp(p, P.scratch.c_str(), P.scratch.size()) ? (g_on && !strcmp(p, "/S") ? "." : p) : p[P.scratch.size()] ? p + P.scratch.size() : "."; }
static void must_be_inside(const char *p, const char *what)
{
    if (g_on && !in_scratch(p)) end_life(END_HARNESS, 3, "%s outside the scratch directory: %s, in %s: %s", what, p, cur_name(), backtrace_text().c_str());
}
static bool masked(uint64_t i) { return std::find(P.fault_off.begin(), P.fault_off.end(), i) != P.fault_off.end(); }
void hist_fault(FaultKind k, const char *path, int err);
// returns an errno to inject, 0 = none
static int file_fault(FaultKind k, const char *path)
{
    if (!g_on || !P.file_fault_mask || !thread_is_server() || !in_scratch(path)) return 0;
    if (!(P.file_fault_mask & (1u << (k - F_WRITE_ENOSPC)))) return 0;
    uint64_t t = now();
    if (t < P.file_fault_from_ns || t >= P.file_fault_to_ns) { sticky_on = false; return 0; }
    if (!(file_class(path) & P.file_fault_classes)) return 0;
    bool fire = frng.chance(P.p_file_fault);
    uint64_t i = ++fault_idx;
    if (sticky_on && P.file_fault_sticky) fire = true;
    if (!fire || masked(i)) return 0;
    fault_fired(k);
    int e = EIO;
    if (k == F_WRITE_ENOSPC || k == F_FALLOC_FAIL || k == F_TRUNC_FAIL || k == F_MKDIR_FAIL) { e = ENOSPC; sticky_on = true; }
    if (k == F_OPEN_FAIL) e = frng.chance(0.5) ? EMFILE : ENOSPC;
    if (k == F_MMAP_FAIL) e = ENOMEM;
    hist_fault(k, path, e);
    trace("FAULT %s #%llu errno %d on %s", fault_names[k], (unsigned long long)i, e, path);
    return e;
}
// The main thread starts and stops the server: a server that cannot get what it needs for that may fail.
static int res_fault(FaultKind k)
{
    if (!g_on || cur_id() == 0 || P.p_res_fault <= 0 || !thread_is_server() || now() >= P.res_fault_to_ns || !(P.res_fault_mask & (1u << (k - F_MMAP_FAIL)))) return 0;
    if (!rrng.chance(P.p_res_fault)) return 0;
    uint64_t i = ++fault_idx;
    if (masked(i)) return 0;
    fault_fired(k);
    trace("FAULT %s #%llu", fault_names[k], (unsigned long long)i);
    return 1;
}

// ---------------------------------------------------------------- raw file layer
static std::string redirect(const char *path)
{
    if (g_on && !strncmp(path, "/proc/", 6))
    {
        std::string s = P.scratch + "proc_";
        for (const char *p = path + 6; *p; p++) s += (*p == '/') ? '_' : *p;
        return s;
    }
    return path;
}
static const char *rel(const std::string &p) { return (!P.scratch.empty() && p.compare(0, P.scratch.size(), P.scratch) == 0) ? p.c_str() + P.scratch.size() : p.c_str(); }

static int raw_open(const char *path, int flags, mode_t mode)
{
    std::string p = redirect(path);
    if (g_on && in_scratch(p.c_str()))
    {
        if (int e = file_fault(F_OPEN_FAIL, p.c_str())) { errno = e; return -1; }
        if (flags & (O_CREAT | O_TRUNC)) maybe_crash_file("open-create");
    }
    if (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) must_be_inside(p.c_str(), "open for writing");
    int fd = syscall(SYS_openat, AT_FDCWD, phys(p.c_str()), flags, mode);
    if (g_on && fd >= 0 && fdt) { fdt[fd].obj.reset(); fdt[fd].file = true; fdt[fd].path = p; if (in_scratch(p.c_str()) && file_class(p.c_str()) != FC_LOG) trace("open %s flags 0x%x -> %d", rel(p), flags, fd); }
    return fd;
}
static ssize_t raw_write(int fd, const void *b, size_t n)
{
    if (!g_on || !fdt || fd < 0 || fd >= MAXFD || !fdt[fd].file || !in_scratch(fdt[fd].path.c_str())) return syscall(SYS_write, fd, b, n);
    const char *p = fdt[fd].path.c_str();
    if (file_class(p) == FC_LOG) return syscall(SYS_write, fd, b, n);
    maybe_crash_file("write");
    size_t part;
    if (crash_here_torn(n, part))
    {
        syscall(SYS_write, fd, b, part);
        fault_fired(F_CRASH_TORN);
        end_life(END_CRASH, 2, "killed inside a write of %zu bytes to %s after %zu bytes, in %s: %s", n, rel(p), part, cur_name(), backtrace_text().c_str());
    }
    if (int e = file_fault(F_WRITE_ENOSPC, p)) { errno = e; return -1; }
    if (int e = file_fault(F_WRITE_EIO, p)) { errno = e; return -1; }
    if (n > 1 && file_fault(F_WRITE_SHORT, p)) { n = 1 + frng.below(n - 1); }
    ssize_t r = syscall(SYS_write, fd, b, n);
    trace("write %s %zd bytes", rel(fdt[fd].path), r);
    return r;
}
static int raw_close(int fd)
{
    if (g_on && fdt && fd >= 0 && fd < MAXFD) { if (fdt[fd].obj) drop_fd(fd); fdt[fd].file = false; fdt[fd].path.clear(); }
    return syscall(SYS_close, fd);
}

// ---------------------------------------------------------------- stdio on cookies
struct Cookie { int fd; };
struct FileInfo { int fd; char *buf; };
static std::unordered_map<FILE *, FileInfo> *file_fd;
static ssize_t ck_read(void *c, char *b, size_t n)
{
    int fd = ((Cookie *)c)->fd;
    if (g_on && fdt[fd].file && file_fault(F_READ_FAIL, fdt[fd].path.c_str())) { errno = EIO; return -1; }
    return syscall(SYS_read, fd, b, n);
}
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    size_t done = 0;
    while (done < n)
    {
        ssize_t r = raw_write(((Cookie *)c)->fd, b + done, n - done);
        if (r <= 0) return done ? (ssize_t)done : 0;      // stdio: 0 = error for cookie writers
        done += r;
        if (done < n && P.file_fault_mask == 0) continue;
        if (done < n) return done;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int w) { off_t r = syscall(SYS_lseek, ((Cookie *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { Cookie *k = (Cookie *)c; int r = raw_close(k->fd); delete k; return r; }

template <class F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }

static FILE *wrap_fd(int fd, const char *mode)
{
    Cookie *k = new Cookie{ fd };
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie(k, mode, io);
    if (!f) { delete k; return nullptr; }
    char *b = (char *)malloc(4096); setvbuf(f, b, _IOFBF, 4096);     // what a regular file gets
    if (!file_fd) file_fd = new std::unordered_map<FILE *, FileInfo>();
    (*file_fd)[f] = FileInfo{ fd, b };
    return f;
}
static bool is_ours(FILE *f) { return file_fd && file_fd->count(f); }

std::string osif_diag()
{
    char b[200]; snprintf(b, sizeof b, "listeners=%zu conns=%d", listeners.size(), conn_count); return b;
}

} // namespace sim

using namespace sim;

extern "C" {

// ================================================================ files
int open(const char *path, int flags, ...)
{
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
    point(PK_FILE); note_impure();
    return raw_open(path, flags, m);
}
int open64(const char *path, int flags, ...)
{
    mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); }
    point(PK_FILE); note_impure();
    return raw_open(path, flags, m);
}
int close(int fd)
{
    point(PK_FILE); activity();
    return raw_close(fd);
}
ssize_t read(int fd, void *b, size_t n)
{
    point(PK_FILE); note_impure();
    if (auto e = as<PipeEnd>(fd, Obj::PIPE_R))
    {
        if (e->p->buf.empty()) { if (!e->p->w) return 0; errno = EAGAIN; return -1; }
        size_t k = std::min(n, e->p->buf.size());
        memcpy(b, e->p->buf.data(), k); e->p->buf.erase(0, k);
        return k;
    }
    if (obj_of(fd)) return recv(fd, b, n, 0);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    point(PK_FILE); note_impure();
    if (auto e = as<PipeEnd>(fd, Obj::PIPE_W))
    {
        if (!e->p->r) { raise_current(SIGPIPE); errno = EPIPE; return -1; }
        if (e->p->buf.size() + n > 65536) { errno = EAGAIN; return -1; }
        e->p->buf.append((const char *)b, n);
        notify(e->p->r);
        point(PK_PIPE);
        return n;
    }
    if (obj_of(fd)) return send(fd, b, n, 0);
    ssize_t r = raw_write(fd, b, n);
    point(PK_FILE);
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (!g_on) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++)
    {
        if (!v[i].iov_len) continue;
        ssize_t r = raw_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
    point(PK_FILE); note_impure();
    if (g_on && fdt[fd].file && in_scratch(fdt[fd].path.c_str()))
    {
        const char *p = fdt[fd].path.c_str();
        maybe_crash_file("pwrite");
        size_t part;
        if (crash_here_torn(n, part))
        {
            syscall(SYS_pwrite64, fd, b, part, o);
            fault_fired(F_CRASH_TORN);
            end_life(END_CRASH, 2, "killed inside a write of %zu bytes to %s after %zu bytes, in %s: %s", n, rel(p), part, cur_name(), backtrace_text().c_str());
        }
        if (int e = file_fault(F_WRITE_ENOSPC, p)) { errno = e; return -1; }
        if (int e = file_fault(F_WRITE_EIO, p)) { errno = e; return -1; }
        if (n > 1 && file_fault(F_WRITE_SHORT, p)) n = 1 + frng.below(n - 1);
        trace("pwrite %s %zu bytes at %ld", rel(p), n, (long)o);
    }
    ssize_t r = syscall(SYS_pwrite64, fd, b, n, o);
    point(PK_FILE);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
int ftruncate(int fd, off_t n)
{
    point(PK_FILE); note_impure();
    if (g_on && fdt[fd].file && in_scratch(fdt[fd].path.c_str()))
    {
        maybe_crash_file("ftruncate");
        if (int e = file_fault(F_TRUNC_FAIL, fdt[fd].path.c_str())) { errno = e; return -1; }
        trace("ftruncate %s %ld", rel(fdt[fd].path), (long)n);
    }
    int r = syscall(SYS_ftruncate, fd, n);
    point(PK_FILE);
    return r;
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fallocate(int fd, int mode, off_t o, off_t n)
{
    point(PK_FILE); note_impure();
    if (g_on && fdt[fd].file && in_scratch(fdt[fd].path.c_str()))
    {
        maybe_crash_file("fallocate");
        if (int e = file_fault(F_FALLOC_FAIL, fdt[fd].path.c_str())) { errno = e; return -1; }
    }
    return syscall(SYS_fallocate, fd, mode, o, n);
}
int fallocate64(int fd, int mode, off64_t o, off64_t n) { return fallocate(fd, mode, o, n); }
int rename(const char *a, const char *b)
{
    point(PK_FILE); note_impure();
    if (in_scratch(a))
    {
        maybe_crash_file("rename");
        if (int e = file_fault(F_RENAME_FAIL, a)) { errno = e; return -1; }
        if (file_class(a) != FC_LOG) trace("rename %s -> %s", rel(a), rel(b));
    }
    must_be_inside(a, "rename"); must_be_inside(b, "rename");
    int r = syscall(SYS_rename, phys(a), phys(b));
    point(PK_FILE);
    return r;
}
int unlink(const char *a)
{
    point(PK_FILE); note_impure();
    if (in_scratch(a)) { maybe_crash_file("unlink"); trace("unlink %s", rel(a)); }
    must_be_inside(a, "unlink");
    return syscall(SYS_unlink, phys(a));
}
int rmdir(const char *a)
{
    point(PK_FILE); note_impure();
    if (in_scratch(a)) { maybe_crash_file("rmdir"); trace("rmdir %s", rel(a)); }
    must_be_inside(a, "rmdir");
    return syscall(SYS_rmdir, phys(a));
}
int remove(const char *a)
{
    int r = unlink(a);
    if (r < 0 && (errno == EISDIR || errno == EPERM)) r = rmdir(a);
    return r;
}
int mkdir(const char *a, mode_t m)
{
    point(PK_FILE); note_impure();
    if (in_scratch(a))
    {
        maybe_crash_file("mkdir");
        if (int e = file_fault(F_MKDIR_FAIL, a)) { errno = e; return -1; }
    }
    must_be_inside(a, "mkdir");
    return syscall(SYS_mkdir, phys(a), m);
}
// Addresses of mappings that are gone stay reserved, so that a pointer into one of them never
// works by chance; for the same reason a mapping that grows always moves.
static void *reserve(void *a, size_t n) { return (void *)syscall(SYS_mmap, a, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED : 0), -1, 0); }
// shared mappings of files get consecutive places in one range, so that stores into them can be told
static void *map_place(size_t n)
{
    static uintptr_t next, end;
    if (!next)
    {
        const size_t all = 1ull << 38;
        void *p = reserve(nullptr, all);
        if (p == MAP_FAILED) return nullptr;
        g_map_lo = next = (uintptr_t)p; g_map_sz = all; end = next + all;
    }
    n = (n + 8191) & ~4095ull;          // and a page that is never mapped
    if (n > end - next) return nullptr;
    void *p = (void *)next;
    next += n;
    return p;
}
void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
    point(PK_MMAP); note_impure();
    if (g_on && fd >= 0 && fdt[fd].file && in_scratch(fdt[fd].path.c_str()))
        if (int e = file_fault(F_MMAP_FAIL, fdt[fd].path.c_str())) { errno = e; return MAP_FAILED; }
    if (g_on && fd >= 0 && !a && (flags & MAP_SHARED))
        if ((a = map_place(n))) flags |= MAP_FIXED;
    return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, o);
}
void *mmap64(void *a, size_t n, int prot, int flags, int fd, off64_t o) { return mmap(a, n, prot, flags, fd, o); }
int munmap(void *a, size_t n)
{
    point(PK_MMAP); note_impure();
    if (g_on && n && ((size_t)a & 4095) == 0) return reserve(a, n) == MAP_FAILED ? -1 : 0;
    return syscall(SYS_munmap, a, n);
}
void *mremap(void *a, size_t o, size_t n, int fl, ...)
{
    point(PK_MMAP); note_impure();
    if (res_fault(F_MMAP_FAIL)) { errno = ENOMEM; return MAP_FAILED; }
    if (!g_on || !(fl & MREMAP_MAYMOVE)) return (void *)syscall(SYS_mremap, a, o, n, fl, 0);
    void *to = (uintptr_t)a - g_map_lo < g_map_sz ? map_place(n) : reserve(nullptr, n);
    if (!to || to == MAP_FAILED) { errno = ENOMEM; return MAP_FAILED; }
    void *r = (void *)syscall(SYS_mremap, a, o, n, MREMAP_MAYMOVE | MREMAP_FIXED, to);
    if (r != MAP_FAILED) reserve(a, o);
    return r;
}
int msync(void *a, size_t n, int f) { point(PK_MMAP); note_impure(); if (g_on) return 0; return syscall(SYS_msync, a, n, f); }
int madvise(void *, size_t, int) { return 0; }
int fsync(int fd) { point(PK_FILE); if (g_on) return 0; return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { point(PK_FILE); if (g_on) return 0; return syscall(SYS_fdatasync, fd); }

static int mode_flags(const char *m)
{
    int f = 0; bool plus = strchr(m, '+') != nullptr;
    if (*m == 'r') f = plus ? O_RDWR : O_RDONLY;
    else if (*m == 'w') f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    return f;
}
FILE *fopen(const char *path, const char *mode)
{
    if (!g_on) { static auto r = real<FILE *(*)(const char *, const char *)>("fopen"); return r(path, mode); }
    point(PK_FILE); note_impure();
    NoPreempt np;
    int fd = raw_open(path, mode_flags(mode), 0666);
    if (fd < 0) return nullptr;
    return wrap_fd(fd, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
FILE *fdopen(int fd, const char *mode)
{
    if (!g_on) { static auto r = real<FILE *(*)(int, const char *)>("fdopen"); return r(fd, mode); }
    NoPreempt np;
    if (*mode == 'a') { int fl = syscall(SYS_fcntl, fd, F_GETFL); syscall(SYS_fcntl, fd, F_SETFL, fl | O_APPEND); }
    return wrap_fd(fd, mode);
}
int fileno(FILE *f)
{
    if (is_ours(f)) return (*file_fd)[f].fd;
    static auto r = real<int (*)(FILE *)>("fileno"); return r(f);
}
int fclose(FILE *f)
{
    static auto r = real<int (*)(FILE *)>("fclose");
    if (!g_on) return r(f);
    point(PK_FILE); note_impure();
    int x;
    { NoPreempt np; char *b = nullptr; if (is_ours(f)) { b = (*file_fd)[f].buf; file_fd->erase(f); } x = r(f); free(b); }
    point(PK_FILE);
    return x;
}
size_t fwrite(const void *b, size_t s, size_t n, FILE *f)
{
    static auto r = real<size_t (*)(const void *, size_t, size_t, FILE *)>("fwrite");
    if (!g_on) return r(b, s, n, f);
    if (g_memcheck && thread_is_server()) mem_check(b, s * n, false, "fwrite");
    point(PK_FILE); note_impure();
    NoPreempt np;
    return r(b, s, n, f);
}
size_t fread(void *b, size_t s, size_t n, FILE *f)
{
    static auto r = real<size_t (*)(void *, size_t, size_t, FILE *)>("fread");
    if (!g_on) return r(b, s, n, f);
    point(PK_FILE); note_impure();
    NoPreempt np;
    return r(b, s, n, f);
}
int fflush(FILE *f)
{
    static auto r = real<int (*)(FILE *)>("fflush");
    if (!g_on) return r(f);
    point(PK_FILE); note_impure();
    int x;
    { NoPreempt np; x = r(f); }
    point(PK_FILE);
    return x;
}
int fseek(FILE *f, long o, int w)
{
    static auto r = real<int (*)(FILE *, long, int)>("fseek");
    if (!g_on) return r(f, o, w);
    point(PK_FILE);
    NoPreempt np;
    return r(f, o, w);
}
int vfprintf(FILE *f, const char *fmt, va_list ap)
{
    static auto r = real<int (*)(FILE *, const char *, va_list)>("vfprintf");
    if (!g_on) return r(f, fmt, ap);
    point(PK_FILE); note_impure();
    NoPreempt np;
    return r(f, fmt, ap);
}
int fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfprintf(f, fmt, ap); va_end(ap); return n; }
int __vfprintf_chk(FILE *f, int, const char *fmt, va_list ap) { return vfprintf(f, fmt, ap); }
int __fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vfprintf(f, fmt, ap); va_end(ap); return n; }
int fputs(const char *s, FILE *f) { return fwrite(s, 1, strlen(s), f) == strlen(s) ? 1 : EOF; }
int fputc(int c, FILE *f) { char b = (char)c; return fwrite(&b, 1, 1, f) == 1 ? c : EOF; }

// directories: the order of entries is the simulator's choice
struct SimDir { std::vector<struct dirent> v; size_t i; };
static std::set<SimDir *> *sim_dirs;
DIR *opendir(const char *p)
{
    static auto r = real<DIR *(*)(const char *)>("opendir");
    if (!g_on) return r(p);
    point(PK_FILE); note_impure();
    DIR *d = r(phys(p)); if (!d) return nullptr;
    static auto rd = real<struct dirent *(*)(DIR *)>("readdir"); static auto cd = real<int (*)(DIR *)>("closedir");
    SimDir *s = new SimDir; s->i = 0;
    while (struct dirent *e = rd(d)) s->v.push_back(*e);
    cd(d);
    std::sort(s->v.begin(), s->v.end(), [](const struct dirent &a, const struct dirent &b) { return strcmp(a.d_name, b.d_name) < 0; });
    uint64_t h = P.seed; for (const char *q = rel(p); *q; q++) h = mix(h, *q);
    Rng x(h);
    for (size_t i = s->v.size(); i > 1; i--) std::swap(s->v[i - 1], s->v[x.below(i)]);
    if (s->v.size() > 3) fault_fired(F_DIRORDER);
    if (!sim_dirs) sim_dirs = new std::set<SimDir *>();
    sim_dirs->insert(s);
    return (DIR *)s;
}
struct dirent *readdir(DIR *d)
{
    if (!sim_dirs || !sim_dirs->count((SimDir *)d)) { static auto r = real<struct dirent *(*)(DIR *)>("readdir"); return r(d); }
    SimDir *s = (SimDir *)d;
    return s->i < s->v.size() ? &s->v[s->i++] : nullptr;
}
struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
int closedir(DIR *d)
{
    if (!d) { errno = EINVAL; return -1; }
    if (!sim_dirs || !sim_dirs->count((SimDir *)d)) { static auto r = real<int (*)(DIR *)>("closedir"); return r(d); }
    sim_dirs->erase((SimDir *)d); delete (SimDir *)d; return 0;
}
int stat(const char *p, struct stat *b)
{
    point(PK_FILE);
    return syscall(SYS_newfstatat, AT_FDCWD, phys(p), b, 0);
}
int stat64(const char *p, struct stat64 *b) { return stat(p, (struct stat *)b); }
int lstat(const char *p, struct stat *b) { return syscall(SYS_newfstatat, AT_FDCWD, phys(p), b, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *b) { return lstat(p, (struct stat *)b); }
int access(const char *p, int m) { return syscall(SYS_access, phys(p), m); }
int truncate(const char *p, off_t n) { must_be_inside(p, "truncate"); return syscall(SYS_truncate, phys(p), n); }
int glob(const char *pat, int flags, int (*err)(const char *, int), glob_t *g)
{
    static auto r = real<int (*)(const char *, int, int (*)(const char *, int), glob_t *)>("glob");
    if (!g_on || !in_scratch(pat)) return r(pat, flags, err, g);
    point(PK_FILE); note_impure();
    NoPreempt np;
    int x = r(phys(pat), flags, err, g);
    if (x == 0) for (size_t i = 0; i < g->gl_pathc; i++) { std::string s = P.scratch + g->gl_pathv[i]; free(g->gl_pathv[i]); g->gl_pathv[i] = strdup(s.c_str()); }
    return x;
}
int glob64(const char *pat, int flags, int (*err)(const char *, int), glob64_t *g) { return glob(pat, flags, err, (glob_t *)g); }
int statvfs(const char *p, struct statvfs *b)
{
    if (!g_on) { static auto r = real<int (*)(const char *, struct statvfs *)>("statvfs"); return r(p, b); }
    memset(b, 0, sizeof *b);
    b->f_bsize = b->f_frsize = 4096; b->f_blocks = 1 << 24; b->f_bfree = b->f_bavail = P.disk_free;
    return 0;
}
int statvfs64(const char *p, struct statvfs64 *b) { return statvfs(p, (struct statvfs *)b); }

// ================================================================ environment
int getrlimit(__rlimit_resource_t r, struct rlimit *l)
{
    if (!g_on || r != RLIMIT_NOFILE) return syscall(SYS_getrlimit, r, l);
    l->rlim_cur = 1024; l->rlim_max = 4096; return 0;
}
int getrlimit64(__rlimit_resource_t r, struct rlimit64 *l) { return getrlimit(r, (struct rlimit *)l); }
int get_nprocs() { return P.nprocs; }
int get_nprocs_conf() { return P.nprocs; }
pid_t getpid() { return g_on ? 4242 : syscall(SYS_getpid); }
int gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
int daemon(int, int) { return 0; }
char *getcwd(char *b, size_t n)
{
    if (g_on && b && n > 1) { strcpy(b, "/S"); return b; }      // keep strings independent of where the scratch directory is
    static auto r = real<char *(*)(char *, size_t)>("getcwd"); return r(b, n);
}

// ================================================================ sockets
int socket(int, int type, int)
{
    if (!g_on) { errno = EPERM; return -1; }
    point(PK_NET); note_impure();
    if ((type & 0xf) == SOCK_DGRAM) return new_fd(std::make_shared<UdpSock>());
    return new_fd(std::make_shared<Listener>());
}
int bind(int fd, const struct sockaddr *a, socklen_t)
{
    point(PK_NET);
    int port = a->sa_family == AF_INET6 ? ntohs(((const sockaddr_in6 *)a)->sin6_port) : ntohs(((const sockaddr_in *)a)->sin_port);
    if (auto l = as<Listener>(fd, Obj::LISTEN)) { if (listeners.count(port)) { errno = EADDRINUSE; return -1; } l->port = port; listeners[port] = l.get(); return 0; }
    if (auto u = as<UdpSock>(fd, Obj::UDP)) { u->port = port; udps.insert({ port, u.get() }); return 0; }
    errno = EBADF; return -1;
}
int listen(int fd, int)
{
    point(PK_NET);
    if (auto l = as<Listener>(fd, Obj::LISTEN)) { l->listening = true; wake_all(&listeners); return 0; }
    errno = EBADF; return -1;
}
int accept4(int fd, struct sockaddr *, socklen_t *, int)
{
    point(PK_NET); note_impure();
    auto l = as<Listener>(fd, Obj::LISTEN);
    if (!l) { errno = EBADF; return -1; }
    if (l->backlog.empty()) { errno = EAGAIN; return -1; }
    if (res_fault(F_ACCEPT_FAIL))
    {
        static const int es[] = { EMFILE, ENFILE, ENOMEM, ECONNABORTED, EINTR, ENOBUFS };
        int e = es[rrng.below(6)];
        if (e == ECONNABORTED) { ConnP c = l->backlog.front(); l->backlog.pop_front(); c->c_rst = c->c_eof = true; c->srv_closed = true; wake_all(c.get()); }
        errno = e; return -1;
    }
    ConnP c = l->backlog.front();
    int n = new_fd(c);
    if (n < 0) return -1;
    l->backlog.pop_front();
    c->accepted = true;
    trace("accept conn %d -> fd %d", c->idx, n);
    return n;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int connect(int, const struct sockaddr *, socklen_t) { errno = ECONNREFUSED; return -1; }
ssize_t recv(int fd, void *b, size_t n, int flags)
{
    point(PK_NET); note_impure();
    auto c = as<Conn>(fd, Obj::CONN);
    if (!c) { errno = obj_of(fd) ? ENOTCONN : EBADF; return -1; }
    if (!c->srx.empty())
    {
        size_t k = std::min(n, c->srx.size());
        if (!(flags & MSG_PEEK) && res_fault(F_EINTR)) { errno = EINTR; return -1; }
        memcpy(b, c->srx.data(), k);
        if (g_memcheck && thread_is_server()) mem_check(b, k, true, "recv");
        if (!(flags & MSG_PEEK)) { c->srx.erase(0, k); trace("recv fd %d conn %d: %zu bytes: %.60s", fd, c->idx, k, std::string((char *)b, std::min<size_t>(k, 60)).c_str()); }
        return k;
    }
    if (c->err) { errno = c->err; c->err = 0; return -1; }
    if (c->fin_in || c->rst_in) return 0;
    errno = EAGAIN; return -1;
}
ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *, socklen_t *) { return recv(fd, b, n, flags); }
ssize_t send(int fd, const void *b, size_t n, int flags)
{
    point(PK_NET); note_impure();
    auto c = as<Conn>(fd, Obj::CONN);
    if (!c) { errno = obj_of(fd) ? ENOTCONN : EBADF; return -1; }
    if (g_memcheck && thread_is_server()) mem_check(b, n, false, "send");
    if (c->err || c->rst_in)
    {
        int e = c->err ? c->err : EPIPE; c->err = 0;
        if (e == EPIPE && !(flags & MSG_NOSIGNAL)) raise_current(SIGPIPE);
        errno = e; return -1;
    }
    if (res_fault(F_SEND_FAIL)) { errno = rrng.chance(0.5) ? EAGAIN : EINTR; return -1; }
    size_t room = (int)c->tx.size() < c->sndbuf ? c->sndbuf - c->tx.size() : 0;
    if (!room)
    {   // the caller retries in a loop: let time pass so that the spin costs few steps
        if (!c->full++) fault_fired(F_NET_BACKPRESSURE);
        if (c->full > 8) sleep_ns(std::min<uint64_t>(20000ull * (c->full - 8), 2000000ull));
        errno = EAGAIN; return -1;
    }
    c->full = 0;
    size_t k = std::min(n, room);
    if (k > 1 && c->rng.chance(P.p_seg * 0.3)) { k = 1 + c->rng.below(k); }
    if (k < n) fault_fired(F_NET_SHORTSEND);
    c->tx.append((const char *)b, k);
    trace("send fd %d conn %d: %zu of %zu bytes: %.100s", fd, c->idx, k, n, std::string((const char *)b, std::min<size_t>(k, 100)).c_str());
    c->pump();
    point(PK_NET);
    return k;
}
ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *, socklen_t) { return send(fd, b, n, flags); }
int recvmmsg(int fd, struct mmsghdr *m, unsigned n, int, struct timespec *)
{
    point(PK_NET); note_impure();
    auto u = as<UdpSock>(fd, Obj::UDP);
    if (!u) { errno = EBADF; return -1; }
    if (res_fault(F_EINTR)) { errno = EINTR; return -1; }
    while (u->q.empty()) wait_on(u.get(), NEVER);
    unsigned i = 0;
    for (; i < n && !u->q.empty(); i++)
    {
        std::string b = u->q.front().b; uint64_t id = u->q.front().id; u->q.pop_front();
        size_t k = std::min(b.size(), m[i].msg_hdr.msg_iov[0].iov_len);
        memcpy(m[i].msg_hdr.msg_iov[0].iov_base, b.data(), k);
        m[i].msg_len = k;
        m[i].msg_hdr.msg_flags = k < b.size() ? MSG_TRUNC : 0;
        if (udp_delivered) udp_delivered(id);
    }
    return i;
}
int setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int getsockopt(int, int, int, void *v, socklen_t *l) { if (*l >= sizeof(int)) { *(int *)v = 65536; } return 0; }
int shutdown(int, int) { return 0; }
int pipe(int fd[2])
{
    if (!g_on) return syscall(SYS_pipe, fd);
    point(PK_PIPE); note_impure();
    auto p = std::make_shared<Pipe>();
    fd[0] = new_fd(std::make_shared<PipeEnd>(Obj::PIPE_R, p));
    fd[1] = new_fd(std::make_shared<PipeEnd>(Obj::PIPE_W, p));
    return fd[0] < 0 || fd[1] < 0 ? -1 : 0;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!g_on) return syscall(SYS_fcntl, fd, cmd, arg);
    point(PK_NET); note_impure();
    if ((cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC))
    {
        if (arg >= 1024) { errno = EINVAL; return -1; }
        if (fdt[fd].obj && res_fault(F_EMFILE)) { errno = EMFILE; return -1; }
        int n = syscall(SYS_fcntl, fd, cmd, arg);
        if (n >= 1024) { syscall(SYS_close, n); errno = EMFILE; return -1; }
        if (n >= 0) { fdt[n] = fdt[fd]; if (fdt[n].obj) fdt[n].obj->fds++; }
        return n;
    }
    return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
int dup(int fd) { return fcntl(fd, F_DUPFD, 0L); }

int epoll_create1(int) { if (!g_on) { errno = EPERM; return -1; } point(PK_EPOLL); return new_fd(std::make_shared<Epoll>()); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
    point(PK_EPOLL); note_impure();
    auto e = as<Epoll>(ep, Obj::EPOLL);
    Obj *o = obj_of(fd);
    if (!e || !o) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_DEL)
    {
        auto it = e->regs_.find(fd);
        if (it == e->regs_.end()) { errno = ENOENT; return -1; }
        e->regs_.erase(it);
        o->regs.erase(std::remove(o->regs.begin(), o->regs.end(), std::make_pair(e.get(), fd)), o->regs.end());
        return 0;
    }
    if (op == EPOLL_CTL_ADD)
    {
        if (e->regs_.count(fd)) { errno = EEXIST; return -1; }
        if (res_fault(F_EMFILE)) { errno = ENOMEM; return -1; }
        o->regs.push_back({ e.get(), fd });
    }
    else if (!e->regs_.count(fd)) { errno = ENOENT; return -1; }
    Reg r; r.obj = fdt[fd].obj; r.events = ev->events; r.data = ev->data; r.armed = o->ready() != 0; r.order = ++arm_order;
    e->regs_[fd] = r;
    if (r.armed) wake_all(e.get());
    return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout)
{
    point(PK_EPOLL); note_impure();
    auto e = as<Epoll>(ep, Obj::EPOLL);
    if (!e) { errno = EBADF; return -1; }
    if (res_fault(F_EINTR)) { errno = EINTR; return -1; }
    uint64_t dl = timeout < 0 ? NEVER : now() + timeout * MS;
    for (;;)
    {
        std::vector<std::pair<uint64_t, int>> rdy;
        for (auto &x : e->regs_)
        {
            Reg &r = x.second; auto o = r.obj.lock(); if (!o) continue;
            uint32_t got = o->ready() & (r.events | EPOLLERR | EPOLLHUP);
            if (got && (r.armed || !(r.events & EPOLLET))) rdy.push_back({ r.order, x.first });
        }
        std::sort(rdy.begin(), rdy.end());
        int n = 0;
        for (auto &x : rdy)
        {
            if (n >= max) break;
            Reg &r = e->regs_[x.second];
            ev[n].events = r.obj.lock()->ready() & (r.events | EPOLLERR | EPOLLHUP);
            ev[n].data = r.data; r.armed = false; n++;
        }
        if (n) return n;
        if (now() >= dl) return 0;
        if (!wait_on(e.get(), dl)) { if (timeout >= 0) return 0; }
    }
}
int getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **) { return -2; }

} // extern "C"
