// Own runtime behind clang's thread instrumentation (the code is compiled with -fsanitize=thread and linked
// without the sanitizer's runtime): records every memory access of two operations executed by two threads.
//
// If no byte written by one operation is touched by the other one (outside atomic accesses), all their steps
// are independent, so every interleaving is equivalent to the executed one (one Mazurkiewicz class): results
// cannot depend on the schedule.  A conflict is a data race.  Memory is never recycled while recording, so a
// shared address is shared memory.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <malloc.h>
#include <mm_malloc.h>
#include <sys/mman.h>
#define RACE_RT __attribute__((disable_sanitizer_instrumentation, noinline))
#define RACE_RTI __attribute__((disable_sanitizer_instrumentation))

namespace race
{
    inline thread_local int cur __attribute__((tls_model("initial-exec"))) = -1; // which operation this thread is recording
    struct Rec { uintptr_t a; uint8_t r[2], w[2]; const void *pc[2]; };
    constexpr size_t kRec = size_t(1) << 21;
    inline Rec *tab = nullptr;
    inline uint32_t *used = nullptr;
    inline std::atomic<size_t> nused{0};
    inline uint64_t accesses = 0;

    RACE_RT inline void init()
    {
        if (tab) return;
        tab = (Rec *)mmap(nullptr, kRec * sizeof(Rec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        used = (uint32_t *)mmap(nullptr, kRec * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    RACE_RT inline void reset()
    {
        init();
        size_t n = __atomic_load_n((size_t *)&nused, __ATOMIC_RELAXED);
        for (size_t i = 0; i < n; i++) { char *p = (char *)&tab[used[i]]; for (size_t k = 0; k < sizeof(Rec); k++) p[k] = 0; }
        __atomic_store_n((size_t *)&nused, size_t(0), __ATOMIC_RELAXED);
    }
    RACE_RT inline void note8(uintptr_t g, uint8_t m, bool w, const void *pc)
    {
        size_t h = (g >> 3) * 0x9e3779b97f4a7c15ull >> 43;
        for (;; h = (h + 1) & (kRec - 1))
        {
            Rec &r = tab[h];
            if (r.a == 0)
            {
                size_t n = __atomic_fetch_add((size_t *)&nused, size_t(1), __ATOMIC_RELAXED);
                if (n > kRec / 2) abort();
                used[n] = h;
                r.a = g;
            }
            if (r.a == g)
            {
                if (w) { r.w[cur] |= m; r.pc[cur] = pc; }
                else { r.r[cur] |= m; if (!r.pc[cur]) r.pc[cur] = pc; }
                return;
            }
        }
    }
    RACE_RT inline void note(const void *p, size_t n, bool w, const void *pc)
    {
        if (cur < 0) return;
        __atomic_fetch_add(&accesses, uint64_t(1), __ATOMIC_RELAXED);
        uintptr_t a = (uintptr_t)p, e = a + n;
        while (a < e)
        {
            uintptr_t g = a & ~uintptr_t(7), to = g + 8 < e ? g + 8 : e;
            uint8_t m = 0;
            for (; a < to; a++) m |= 1 << (a - g);
            note8(g, m, w, pc);
        }
    }
    struct Conflict { uintptr_t a; const void *pc0, *pc1; bool ww; };
    RACE_RT inline bool conflict(Conflict &c)
    {
        size_t n = __atomic_load_n((size_t *)&nused, __ATOMIC_RELAXED);
        for (size_t i = 0; i < n; i++)
        {
            Rec &r = tab[used[i]];
            if ((r.w[0] & (r.r[1] | r.w[1])) || (r.w[1] & r.r[0])) { c = {r.a, r.pc[0], r.pc[1], bool(r.w[0] & r.w[1])}; return true; }
        }
        return false;
    }
    // never recycled memory
    inline char *arena = nullptr;
    inline std::atomic<size_t> top{0};
    constexpr size_t kArena = size_t(1) << 36;
    RACE_RT inline void *grab(size_t n, size_t al)
    {
        char *base = __atomic_load_n(&arena, __ATOMIC_ACQUIRE);
        if (!base)
        {
            char *m = (char *)mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED) abort();
            if (!__atomic_compare_exchange_n(&arena, &base, m, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) munmap(m, kArena); else base = m;
        }
        if (al < 16) al = 16;
        size_t need = (n + al + 32 + 15) & ~size_t(15);
        size_t o = __atomic_fetch_add((size_t *)&top, need, __ATOMIC_RELAXED);
        if (o + need > kArena) abort();
        uintptr_t p = ((uintptr_t)base + o + 16 + al - 1) / al * al;
        ((size_t *)p)[-1] = n;
        return (void *)p;
    }
}
extern "C"
{
    RACE_RT void *malloc(size_t n) noexcept { return race::grab(n, 16); }
    RACE_RT void free(void *) noexcept {}
    RACE_RT void *calloc(size_t a, size_t b) noexcept { return race::grab(a * b, 16); } // fresh pages are zero
    RACE_RT void *realloc(void *p, size_t n)
    {
        char *q = (char *)race::grab(n, 16);
        if (p) { size_t o = ((size_t *)p)[-1]; for (size_t i = 0; i < (o < n ? o : n); i++) q[i] = ((volatile char *)p)[i]; }
        return q;
    }
    RACE_RT void *memalign(size_t al, size_t n) noexcept { return race::grab(n, al); }
    RACE_RT void *aligned_alloc(size_t al, size_t n) noexcept { return race::grab(n, al); }
    RACE_RT int posix_memalign(void **p, size_t al, size_t n) noexcept { *p = race::grab(n, al); return 0; }
    RACE_RT size_t malloc_usable_size(void *p) noexcept { return p ? ((size_t *)p)[-1] : 0; }

    RACE_RTI void __tsan_init() {}
    RACE_RTI void __tsan_func_entry(void *) {}
    RACE_RTI void __tsan_func_exit() {}
    RACE_RTI void __tsan_ignore_thread_begin() {}
    RACE_RTI void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                     \
    RACE_RT void __tsan_read##n(void *p) { race::note(p, n, false, __builtin_return_address(0)); }                \
    RACE_RT void __tsan_write##n(void *p) { race::note(p, n, true, __builtin_return_address(0)); }                \
    RACE_RT void __tsan_unaligned_read##n(void *p) { race::note(p, n, false, __builtin_return_address(0)); }      \
    RACE_RT void __tsan_unaligned_write##n(void *p) { race::note(p, n, true, __builtin_return_address(0)); }      \
    RACE_RT void __tsan_volatile_read##n(void *p) { race::note(p, n, false, __builtin_return_address(0)); }       \
    RACE_RT void __tsan_volatile_write##n(void *p) { race::note(p, n, true, __builtin_return_address(0)); }       \
    RACE_RT void __tsan_read_write##n(void *p) { race::note(p, n, true, __builtin_return_address(0)); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
    RACE_RT void __tsan_vptr_update(void **p, void *v) { if (*p != v) race::note(p, 8, true, __builtin_return_address(0)); }
    RACE_RT void __tsan_vptr_read(void **p) { race::note(p, 8, false, __builtin_return_address(0)); }
    RACE_RT void *__tsan_memcpy(void *d, const void *s, size_t n) { race::note(s, n, false, __builtin_return_address(0)); race::note(d, n, true, __builtin_return_address(0)); return memcpy(d, s, n); }
    RACE_RT void *__tsan_memmove(void *d, const void *s, size_t n) { race::note(s, n, false, __builtin_return_address(0)); race::note(d, n, true, __builtin_return_address(0)); return memmove(d, s, n); }
    RACE_RT void *__tsan_memset(void *d, int c, size_t n) { race::note(d, n, true, __builtin_return_address(0)); return memset(d, c, n); }
    // atomic accesses synchronize and are not conflicts
#define AT(bits, T)                                                                                               \
    RACE_RT T __tsan_atomic##bits##_load(const volatile T *a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    RACE_RT void __tsan_atomic##bits##_store(volatile T *a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    RACE_RT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    RACE_RT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    RACE_RT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    RACE_RT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    RACE_RT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    RACE_RT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    RACE_RT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    RACE_RT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    RACE_RT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    RACE_RT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#undef AT
    RACE_RT void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
    RACE_RT void __tsan_atomic_signal_fence(int) {}
}
