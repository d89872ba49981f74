/* Accounting of, and fault injection into, the allocations made during a call into the library. */
#pragma once
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>

struct AllocState { bool on; long net, n, fail_at; bool failed; unsigned char fill; };
static thread_local AllocState g_alloc = {false, 0, 0, -1, false, 0xA5};

#if defined(VARIANT_REL)
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static bool alloc_denied() {
    if (!g_alloc.on) return false;
    ++g_alloc.n;
    if (g_alloc.fail_at > 0 && g_alloc.n == g_alloc.fail_at) { g_alloc.failed = true; return true; }
    return false;
}
void *malloc(size_t n) {
    if (alloc_denied()) return nullptr;
    void *p = __libc_malloc(n);
    if (g_alloc.on && p) { ++g_alloc.net; memset(p, g_alloc.fill, n); }   /* no call may rely on what fresh memory holds */
    return p;
}
void *calloc(size_t a, size_t b) {
    if (alloc_denied()) return nullptr;
    void *p = __libc_calloc(a, b);
    if (g_alloc.on && p) ++g_alloc.net;
    return p;
}
void *realloc(void *q, size_t n) {
    if (alloc_denied()) return nullptr;
    void *p = __libc_realloc(q, n);
    if (g_alloc.on && p && !q) ++g_alloc.net;
    return p;
}
void free(void *p) {
    if (g_alloc.on && p) --g_alloc.net;
    __libc_free(p);
}
}
static void *raw_alloc(size_t n) { void *p = __libc_memalign(64, (n + 63) / 64 * 64); if (!p) abort(); return p; }
static void raw_free(void *p) { __libc_free(p); }
#else
static void *raw_alloc(size_t n) { void *p = malloc(n); if (!p) abort(); return p; }
static void raw_free(void *p) { free(p); }
#endif

/* One call into the library. exc: 1 if a C++ exception escaped. */
struct Call {
    long net = 0, n = 0; int exc = 0; bool failed = false;
    template <class F> int call(F f, long fail_at = -1, unsigned char fill = 0xA5) {
        AllocState save = g_alloc;
        g_alloc = {true, 0, 0, fail_at, false, fill};
        int r = -1;
        try { r = f(); }
        catch (...) { exc = 1; }
        net = g_alloc.net; n = g_alloc.n; failed = g_alloc.failed;
        g_alloc = save;
        return r;
    }
};
