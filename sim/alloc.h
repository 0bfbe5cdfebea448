// Arena allocator with redzones, quarantine and a validity shadow; used for the whole process.
#pragma once
#include <cstdint>
#include <cstddef>
namespace sim {
static const uintptr_t ARENA = 0x100000000000ULL;
static const size_t ARENA_SIZE = 6ULL << 30;
static const uintptr_t SHADOW = 0x200000000000ULL;   // one byte per 8 arena bytes
extern bool g_memcheck;          // check accesses of the server's code
extern uint8_t g_junk;           // fill pattern of fresh memory
void mem_report(const void *p, size_t n, bool write, const char *what);
static inline void mem_check(const void *p, size_t n, bool write, const char *what = "access")
{
    uintptr_t a = (uintptr_t)p - ARENA;
    if (__builtin_expect(a >= ARENA_SIZE, 1) || n == 0) return;
    // shadow: 8 = all valid, 1..7 = first k bytes valid, 0 = unallocated, 0xF1 redzone, 0xFD freed
    uintptr_t end = a + n;
    for (uintptr_t i = a >> 3; (i << 3) < end; i++)
    {
        uint8_t s = *(uint8_t *)(SHADOW + i);
        if (s == 8) continue;
        if (s >= 1 && s <= 7 && end <= (i << 3) + s) continue;
        mem_report(p, n, write, what);
        return;
    }
}
struct Unreachable { size_t blocks, bytes, live; };
uint64_t heap_seq();
Unreachable heap_unreachable(uint64_t since, void (*found)(size_t size, uint64_t seq, void *const *site));
void alloc_site(void **site);                        // innermost callers in the server's code
uintptr_t stack_used(uintptr_t lo, uintptr_t hi);    // where the part of [lo, hi) begins that is not an unused part of a stack
const char *mem_describe(const void *p, char *buf, size_t n);
}
