// Tracking of heap allocations made while a region of code runs (AddressSanitizer's malloc hooks).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <pthread.h>

namespace track {
static const size_t N = 1 << 16;
static struct { uintptr_t p; size_t n; } tab[N];
static bool on = false; static long live = 0, bytes = 0, total = 0;
static pthread_t owner;
static inline size_t slot(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
static void add(const void* v, size_t n)
{
    if (!on || !v || !pthread_equal(owner, pthread_self())) return;
    ++total; if (live > (long) N / 2) return;
    size_t i = slot((uintptr_t) v); while (tab[i].p > 1) i = (i + 1) % N;
    tab[i].p = (uintptr_t) v; tab[i].n = n; ++live; bytes += (long) n;
}
static void del(const void* v)
{
    if (!on || !v || !pthread_equal(owner, pthread_self())) return;
    for (size_t i = slot((uintptr_t) v); tab[i].p; i = (i + 1) % N) if (tab[i].p == (uintptr_t) v) { tab[i].p = 1; --live; bytes -= (long) tab[i].n; return; }
}
static inline void start() { memset(tab, 0, sizeof tab); live = bytes = total = 0; owner = pthread_self(); on = true; }
static inline void stop() { on = false; }
} // namespace track

extern "C" void __sanitizer_malloc_hook(const volatile void* p, size_t n) { track::add((const void*) p, n); }
extern "C" void __sanitizer_free_hook(const volatile void* p) { track::del((const void*) p); }
