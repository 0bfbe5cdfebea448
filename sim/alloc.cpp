#include "alloc.h"
#include <sys/mman.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <sys/syscall.h>

// calls of memset and memcpy are wrapped to be checked; not those made here
extern "C" { void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); }
#define memset __real_memset
#define memcpy __real_memcpy

namespace sim {

bool g_memcheck = false;
uint8_t g_junk = 0;

namespace {
struct Hdr { uint64_t size; uint32_t off; uint32_t cls; Hdr *next; uint64_t magic; uint64_t seq; void *site[3]; };   // 64 bytes, before user memory
const uint64_t LIVE = 0x11fea110c8d00d01ULL, DEAD = 0xdeadf8ee00000002ULL, SKIP = 0x5c1bb10c4ead0003ULL;
const int NCLS = 64;
Hdr *freelist[NCLS];
Hdr *q_head, *q_tail; size_t q_bytes;
const size_t Q_MAX = 24u << 20;
uintptr_t brk_ = 0;
bool ready;
uint64_t seq_;
const uint32_t ALIGNED = 0x80000000u;      // in Hdr::off

void init()
{
    ready = true;
    void *a = (void *)syscall(SYS_mmap, ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void *s = (void *)syscall(SYS_mmap, SHADOW, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void *)ARENA || s != (void *)SHADOW) { const char m[] = "sim: cannot map arena\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(70); }
    brk_ = ARENA + 4096;
}

// size classes: 16-byte steps to 512, then 4 per power of two
int cls_of(size_t total, size_t &rounded)
{
    if (total <= 512) { rounded = (total + 15) & ~15ULL; return (int)(rounded / 16) - 1; }     // 0..31
    int lg = 63 - __builtin_clzll(total - 1);         // 2^lg < total <= 2^(lg+1)
    rounded = 2ULL << lg;
    int c = 32 + (lg - 9);
    if (c >= NCLS) c = NCLS - 1;
    return c;
}

void shadow_set(uintptr_t a, size_t n, uint8_t v) { memset((void *)(SHADOW + ((a - ARENA) >> 3)), v, n >> 3); }

void *alloc(size_t n, size_t align)
{
    if (!ready) init();
    if (n > ARENA_SIZE / 4) { errno = ENOMEM; return nullptr; }
    if (align < 16) align = 16;
    size_t pre = sizeof(Hdr) + (align > 16 ? align + sizeof(Hdr) : 0);
    size_t want = pre + ((n + 7) & ~7ULL) + 16;       // right redzone >= 16
    size_t total; int c = cls_of(want, total);
    uintptr_t base;
    Hdr *h = (align == 16) ? freelist[c] : nullptr;
    if (h) { freelist[c] = h->next; base = (uintptr_t)h; }
    else
    {
        base = brk_; brk_ += total;
        if (brk_ > ARENA + ARENA_SIZE) { errno = ENOMEM; return nullptr; }
    }
    ((Hdr *)base)->cls = c;                       // lets the arena be walked
    uintptr_t user = base + sizeof(Hdr);
    if (align > 16) user = (user + sizeof(Hdr) + align - 1) & ~(align - 1);     // behind a header of its own at the base
    Hdr *uh = (Hdr *)(user - sizeof(Hdr));
    shadow_set(base, total, 0xF1);
    if (g_junk && n) memset((void *)user, g_junk, n < 65536 ? n : 65536);
    uh->size = n; uh->off = (uint32_t)(user - sizeof(Hdr) - base) | (align > 16 ? ALIGNED : 0); uh->cls = c; uh->magic = LIVE; uh->next = nullptr;
    uh->seq = ++seq_; alloc_site(uh->site);
    if (align > 16 && (uintptr_t)uh != base) { Hdr *b = (Hdr *)base; b->off = (uint32_t)((uintptr_t)uh - base); b->magic = SKIP; }
    shadow_set(user, n & ~7ULL, 8);
    if (n & 7) *(uint8_t *)(SHADOW + ((user + (n & ~7ULL) - ARENA) >> 3)) = n & 7;
    return (void *)user;
}

void dealloc(void *p)
{
    if (!p) return;
    uintptr_t user = (uintptr_t)p;
    if (user - ARENA >= ARENA_SIZE) return;      // not ours
    Hdr *h = (Hdr *)(user - sizeof(Hdr));
    if (h->magic != LIVE) { mem_report(p, 1, true, h->magic == DEAD ? "double free" : "bad free"); return; }
    h->magic = DEAD;
    shadow_set(user, (h->size + 7) & ~7ULL, 0xFD);
    if (g_junk && h->size) memset(p, 0xDD, h->size < 4096 ? h->size : 4096);
    if (h->off) return;                          // over-aligned blocks are not recycled
    size_t total; cls_of(sizeof(Hdr) + ((h->size + 7) & ~7ULL) + 16, total);
    h->next = nullptr;
    if (q_tail) q_tail->next = h; else q_head = h;
    q_tail = h; q_bytes += total;
    while (q_bytes > Q_MAX)
    {
        Hdr *x = q_head; q_head = x->next; if (!q_head) q_tail = nullptr;
        size_t t; int c = cls_of(sizeof(Hdr) + ((x->size + 7) & ~7ULL) + 16, t);
        q_bytes -= t;
        if (c == NCLS - 1) continue;
        x->next = freelist[c]; freelist[c] = x;
    }
}

// ---- blocks nobody can reach any more
struct Blk { uintptr_t lo, hi; Hdr *h; bool mark; };
Blk *blk; size_t nblk, blkcap;
uint32_t *work; size_t nwork;
void scan(uintptr_t lo, uintptr_t hi, int step = 8)       // packed classes hold pointers at any address
{
    for (uintptr_t a = (lo + step - 1) & ~(uintptr_t)(step - 1); a + 8 <= hi; a += step)
    {
        uintptr_t v; memcpy(&v, (void *)a, 8);
        if (v - ARENA >= ARENA_SIZE || v >= brk_) continue;
        size_t l = 0, r = nblk;
        while (l < r) { size_t m = (l + r) / 2; if (blk[m].hi <= v) l = m + 1; else r = m; }
        if (l == nblk || blk[l].lo > v || blk[l].mark || !blk[l].h) continue;
        blk[l].mark = true; work[nwork++] = (uint32_t)l;
    }
}
} // namespace

uint64_t heap_seq() { return seq_; }

// Conservative marking from the writable memory of the process; reports blocks allocated after `since` that were not reached.
Unreachable heap_unreachable(uint64_t since, void (*found)(size_t size, uint64_t seq, void *const *site))
{
    Unreachable res = { 0, 0, 0 };
    const size_t CAP = 4u << 20;
    if (!blk)
    {
        blk = (Blk *)syscall(SYS_mmap, 0, CAP * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        work = (uint32_t *)syscall(SYS_mmap, 0, CAP * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    nblk = nwork = 0;
    for (uintptr_t b = ARENA + 4096; b < brk_ && nblk < CAP; )
    {
        Hdr *h = (Hdr *)b; uint32_t c = h->cls;
        size_t total = c < 32 ? (c + 1) * 16ULL : 2ULL << (c - 32 + 9);
        if (h->magic == SKIP) h = (Hdr *)(b + h->off);
        if (h->magic == LIVE) { uintptr_t u = (uintptr_t)(h + 1); blk[nblk].lo = u; blk[nblk].hi = u + (h->size ? h->size : 1); blk[nblk].h = h; blk[nblk].mark = false; nblk++; res.live += h->size; }
        b += total;
    }
    static char buf[1 << 16];
    int fd = (int)syscall(SYS_openat, -100, "/proc/self/maps", 0, 0);
    size_t n = 0; for (;;) { long k = syscall(SYS_read, fd, buf + n, sizeof buf - 1 - n); if (k <= 0) break; n += k; }
    buf[n] = 0; syscall(SYS_close, fd);
    static unsigned char res_[1 << 16];
    for (char *l = buf; *l; )
    {
        char *e = strchr(l, '\n'); if (!e) break;
        *e = 0;
        uintptr_t lo = 0, hi = 0; char pr[8]; unsigned long off, ino; char dev[16]; char path[200]; path[0] = 0;
        if (sscanf(l, "%lx-%lx %7s %lx %15s %lu %199s", &lo, &hi, pr, &off, dev, &ino, path) >= 6 && pr[0] == 'r' && pr[1] == 'w' && pr[3] == 'p'
            && !(lo >= ARENA && lo < ARENA + ARENA_SIZE) && !(lo >= SHADOW && lo < SHADOW + ARENA_SIZE / 8))
        {
            for (uintptr_t p = lo & ~4095ULL; p < hi; p += sizeof res_ * 4096ULL)
            {
                uintptr_t q = hi < p + sizeof res_ * 4096ULL ? hi : p + sizeof res_ * 4096ULL;
                if (syscall(SYS_mincore, p, q - p, res_)) continue;
                for (uintptr_t x = p; x < q; x += 4096)
                    if (res_[(x - p) >> 12] & 1)
                    {
                        uintptr_t a = x < lo ? lo : x, z = x + 4096;
                        a = stack_used(a, z);
                        if (z > (uintptr_t)blk && a < (uintptr_t)blk + CAP * sizeof(Blk)) continue;
                        if (z > (uintptr_t)work && a < (uintptr_t)work + CAP * sizeof(uint32_t)) continue;
                        scan(a, z);
                    }
            }
        }
        l = e + 1;
    }
    while (nwork) { Blk &b = blk[work[--nwork]]; scan(b.lo, b.hi, b.hi - b.lo <= 2048 ? 1 : 8); }
    for (size_t i = 0; i < nblk; i++)
        if (!blk[i].mark && blk[i].h->seq > since) { res.blocks++; res.bytes += blk[i].h->size; if (found) found(blk[i].h->size, blk[i].h->seq, blk[i].h->site); }
    return res;
}

const char *mem_describe(const void *p, char *buf, size_t n)
{
    uintptr_t a = (uintptr_t)p;
    // walk back to the closest header
    for (uintptr_t u = a & ~15ULL; u > ARENA + 4096 && a - u < (1u << 20); u -= 16)
    {
        Hdr *h = (Hdr *)(u - sizeof(Hdr));
        if (h->magic == LIVE || h->magic == DEAD)
        {
            snprintf(buf, n, "%ld bytes into a %s block of %llu bytes", (long)(a - u), h->magic == LIVE ? "live" : "freed", (unsigned long long)h->size);
            return buf;
        }
    }
    snprintf(buf, n, "unknown heap location");
    return buf;
}

} // namespace sim

using namespace sim;
extern "C" {
void *malloc(size_t n) { return alloc(n, 16); }
void free(void *p) { dealloc(p); }
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
void *realloc(void *p, size_t n)
{
    if (!p) return alloc(n, 16);
    if (n == 0) { dealloc(p); return nullptr; }
    Hdr *h = (Hdr *)((uintptr_t)p - sizeof(Hdr));
    void *q = alloc(n, 16);
    if (q) { memcpy(q, p, h->size < n ? h->size : n); dealloc(p); }
    return q;
}
void *aligned_alloc(size_t al, size_t n) { return alloc(n, al); }
void *memalign(size_t al, size_t n) { return alloc(n, al); }
void *valloc(size_t n) { return alloc(n, 4096); }
void *pvalloc(size_t n) { return alloc((n + 4095) & ~4095ULL, 4096); }
int posix_memalign(void **r, size_t al, size_t n) { void *p = alloc(n, al); if (!p) return ENOMEM; *r = p; return 0; }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)((uintptr_t)p - sizeof(Hdr)))->size : 0; }
}
