// Memory seam: operator new/delete and malloc of the whole process. Inside operations every request is a
// scheduling point, can be made to fail, is filled with a poison byte and accounted for.
#include "internal.hpp"
#include <malloc.h>
#include <new>
#include <cstdlib>

extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
}

namespace sim {
void sched_poison(int);
namespace {
struct Mem {
    int poison; int64_t allocs; int64_t outstanding; bool malloc_too;
    enum { N = 8192 };
    void* live[N];
} M;
inline size_t slot(void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 2654435761u % Mem::N; }
void track(void* p) {
    size_t i = slot(p);
    for (size_t n = 0; n < Mem::N; ++n, i = (i + 1) % Mem::N)
        if (M.live[i] == 0 || M.live[i] == (void*)1) { M.live[i] = p; ++M.outstanding; return; }
}
bool untrack(void* p) {
    size_t i = slot(p);
    for (size_t n = 0; n < Mem::N; ++n, i = (i + 1) % Mem::N) {
        if (M.live[i] == 0) return false;
        if (M.live[i] == p) { M.live[i] = (void*)1; --M.outstanding; return true; }
    }
    return false;
}
// returns false if this request is to fail
bool request(Thr* t) {
    point_slow(t, K_CALL);
    int64_t k = M.allocs++;
    if (t->fail_in >= 0 && t->fail_in-- == 0) {
        t->alloc_failed = true;
        Quiet q;
        count("fault.alloc_failure");
        event("alloc-fail", k);
        if (trace_on) note(fmt("-- allocation %lld of the operation fails", (long long)k));
        return false;
    }
    return true;
}
} // namespace

void mem_run_start() { M.poison = 0xA5; M.malloc_too = false; op_alloc_reset(); sched_poison(0xA5); }
void set_poison(int b) { M.poison = b & 255; sched_poison(b & 255); }
void fail_alloc(int64_t k) { if (self) { self->fail_in = k < 0 ? -1 : k; self->alloc_failed = false; } }
bool alloc_failed() { return self && self->alloc_failed; }
int64_t op_allocs() { return M.allocs; }
int64_t op_outstanding() { return M.outstanding; }
void op_alloc_reset() { M.allocs = 0; M.outstanding = 0; memset(M.live, 0, sizeof M.live); }
void fail_malloc_too(bool b) { M.malloc_too = b; }

static void* do_new(size_t n, bool nothrow, size_t align) {
    Thr* t = self;
    const bool op = t && t->in_op == 1;
    if (op && !request(t)) {
        if (nothrow) return 0;
        throw std::bad_alloc();
    }
    if (n > (size_t(1) << 33)) { if (nothrow) return 0; throw std::bad_alloc(); }
    void* p = align > 16 ? __libc_memalign(align, n ? n : 1) : __libc_malloc(n ? n : 1);
    if (!p) { if (nothrow) return 0; throw std::bad_alloc(); }
    if (t) memset(p, M.poison, n);
    if (op && !t->guards) track(p);
    return p;
}
static void do_delete(void* p) {
    if (!p) return;
    Thr* t = self;
    if (t) {
        untrack(p);
        memset(p, M.poison ^ 0x3C, malloc_usable_size(p));
        if (t->in_op == 1) point_slow(t, K_CALL);
    }
    __libc_free(p);
}
} // namespace sim

using namespace sim;
void* operator new(size_t n) { return do_new(n, false, 0); }
void* operator new[](size_t n) { return do_new(n, false, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, true, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, true, 0); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
#if __cplusplus >= 201703L
void* operator new(size_t n, std::align_val_t a) { return do_new(n, false, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, false, size_t(a)); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
#endif

extern "C" {
void* malloc(size_t n) {
    Thr* t = self;
    if (t && t->in_op == 1) {
        if (M.malloc_too) { if (!request(t)) return 0; }
        void* p = __libc_malloc(n);
        if (p) { memset(p, M.poison, n); if (M.malloc_too && !t->guards) track(p); }
        return p;
    }
    return __libc_malloc(n);
}
void free(void* p) {
    if (!p) return;
    Thr* t = self;
    if (t) untrack(p);
    __libc_free(p);
}
void* calloc(size_t a, size_t b) {
    Thr* t = self;
    if (t && t->in_op == 1 && M.malloc_too) {
        if (!request(t)) return 0;
        void* p = __libc_calloc(a, b);
        if (p && !t->guards) track(p);
        return p;
    }
    return __libc_calloc(a, b);
}
void* realloc(void* o, size_t n) {
    Thr* t = self;
    if (t && t->in_op == 1 && M.malloc_too) {
        if (!request(t)) return 0;
        bool was = o && untrack(o);
        void* p = __libc_realloc(o, n);
        if (p && (was || (!o && !t->guards))) track(p);
        return p;
    }
    return __libc_realloc(o, n);
}
}
