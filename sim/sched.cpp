// Scheduler: real threads, one running at a time, switching only where the plan says. Scheduling points come from
// the compiler's ThreadSanitizer instrumentation of the library code (this file is the runtime behind it), from
// allocations, system calls, generator draws and lock operations.
#include "internal.hpp"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/mman.h>
#include <algorithm>
#include <map>

extern "C" { extern char __data_start; extern char _end; }

namespace sim {

__thread Thr* self = 0;

namespace {
enum { MAX_THR = 16, STACK = 1 << 20 };
struct Sched {
    std::vector<Thr*> thr;      // of the current run_threads
    sem_t main_done;
    bool active;
    uint64_t points, switches, stuck;
    std::map<int, std::vector<Switch> > plan;   // by operation id
    void (*hook)();
    uint64_t cap;
    int poison;
} S;

int next_after(int id, bool self_too) {
    int n = int(S.thr.size());
    for (int d = 1; d <= n; ++d) {
        int u = (id + d) % n;
        if (u == id && !self_too) continue;
        if (!S.thr[u]->done) return u;
    }
    return -1;
}
void hand_over(Thr* from, int u) {
    ++S.switches;
    event("switch", uint64_t(from->id) << 32 | uint64_t(u), uint64_t(from->op) << 20 | uint64_t(from->cnt[0]));
    if (S.hook) S.hook();
    if (trace_on)
        note(fmt("-- switch: thread %d, operation %d, point %lld -> thread %d", from->id, from->op,
                 (long long)from->cnt[0], u));
    sem_post(&S.thr[u]->sem);
}
void wait_turn(Thr* t) { while (sem_wait(&t->sem) != 0) {} }

char* new_stack() {
    void* p = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "sim: no stack\n"); _exit(9); }
    // the part that operations will use; the rest stays zero
    memset(static_cast<char*>(p) + STACK - 65536, S.poison, 65536 - 8192);
    return static_cast<char*>(p);
}
void* thread_main(void* p) {
    Thr* t = static_cast<Thr*>(p);
    self = t;
    wait_turn(t);
    t->fn(t->id, t->arg);
    t->done = true;
    t->in_op = 0;
    event("exit", t->id);
    int u = next_after(t->id, false);
    if (u < 0) sem_post(&S.main_done);
    else hand_over(t, u);
    return 0;
}
} // namespace

bool sched_active() { return S.active; }
uint64_t points() { return S.points; }
int current_thread() { return self ? self->id : -1; }
void set_switch_hook(void (*fn)()) { S.hook = fn; }

void load_switches(const Plan& p) {
    S.plan.clear();
    for (size_t i = 0; i < p.lines.size(); ++i)
        if (p.lines[i].k == "sw") {
            const Line& l = p.lines[i];
            Switch s; s.kind = int(l.arg(1)); s.k = l.arg(2); s.target = int(l.arg(3));
            if (s.kind < 0 || s.kind >= K_KINDS) continue;
            S.plan[int(l.arg(0))].push_back(s);
        }
}

void point_slow(Thr* t, int kind) {
    t->in_op = 0;
    ++S.points;
    if (S.points > S.cap) violate("hang", "operation exceeded the step budget of the run");
    const int64_t k0 = t->cnt[0]++;
    const int64_t k1 = kind ? t->cnt[kind]++ : -1;
    int target = -1;
    for (int i = 0; i < t->nsw; ++i) {
        const Switch& s = t->sw[i];
        if ((s.kind == 0 && s.k == k0) || (s.kind == kind && kind && s.k == k1)) target = s.target;
    }
    if (target >= 0 && S.active) {
        int n = int(S.thr.size());
        int u = target % n;
        if (u == t->id || S.thr[u]->done) u = next_after(t->id, false);
        if (u >= 0) {
            count(kind == K_GLOBAL ? "sched.switch_at_global_access" : kind == K_CALL ? "sched.switch_at_call"
                                                                               : "sched.switch_at_memory_access");
            hand_over(t, u);
            wait_turn(t);
            S.stuck = 0;
        }
    }
    t->in_op = 1;
}
void point(int kind) { if (self && self->in_op) point_slow(self, kind); }

void block_yield() {
    Thr* t = self;
    if (!t || !S.active) { usleep(100); return; }
    int saved = t->in_op; t->in_op = 0;
    if (++S.stuck > 10000) violate("deadlock", "no thread can proceed");
    int u = next_after(t->id, false);
    if (u < 0) violate("deadlock", "a lock is never released");
    count("sched.blocked");
    hand_over(t, u);
    wait_turn(t);
    t->in_op = saved;
}

__attribute__((noinline)) static void scribble_stack(int byte) {
    volatile char a[12288];
    memset(const_cast<char*>(a), byte, sizeof a);
    asm volatile("" : : "r"(a) : "memory");
}

OpScope::OpScope(int id, bool scribble) : live(false) {
    Thr* t = self;
    if (!t) return;
    if (scribble) scribble_stack(S.poison);
    t->op = id;
    t->cnt[0] = t->cnt[1] = t->cnt[2] = 0;
    std::map<int, std::vector<Switch> >::const_iterator i = S.plan.find(id);
    t->sw = 0; t->nsw = 0;
    if (i != S.plan.end()) { t->sw = i->second.data(); t->nsw = int(i->second.size()); }
    live = true;
    t->in_op = 1;
    point_slow(t, 0);
}
void OpScope::end() {
    if (!live) return;
    live = false;
    self->in_op = 0;
}
OpScope::~OpScope() { end(); }
Pause::Pause() : saved(self ? self->in_op : 0) { if (self) self->in_op = 0; }
Pause::~Pause() { if (self) self->in_op = saved; }

void set_poison(int b);   // mem.cpp
void sched_poison(int b) { S.poison = b; }
void sched_cap(uint64_t c) { S.cap = c; }
void sched_totals(uint64_t& p, uint64_t& s) { p = S.points; s = S.switches; }

void run_threads(int n, void (*fn)(int, void*), void* arg, int first) {
    Quiet q;
    if (n > MAX_THR) n = MAX_THR;
    for (size_t i = 0; i < S.thr.size(); ++i) delete S.thr[i];
    S.thr.clear();
    sem_init(&S.main_done, 0, 0);
    std::vector<char*> stacks;
    for (int i = 0; i < n; ++i) {
        Thr* t = new Thr();
        t->id = i; t->op = -1; t->fail_in = -1; t->fn = fn; t->arg = arg;
        t->lo = new_stack(); t->hi = t->lo + STACK;
        stacks.push_back(t->lo);
        sem_init(&t->sem, 0, 0);
        S.thr.push_back(t);
    }
    for (int i = 0; i < n; ++i) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, S.thr[i]->lo, STACK);
        if (pthread_create(&S.thr[i]->pt, &at, thread_main, S.thr[i]) != 0) { fprintf(stderr, "sim: no thread\n"); _exit(9); }
        pthread_attr_destroy(&at);
    }
    S.active = n > 1;
    sem_post(&S.thr[first % n]->sem);
    while (sem_wait(&S.main_done) != 0) {}
    for (int i = 0; i < n; ++i) pthread_join(S.thr[i]->pt, 0);
    S.active = false;
    for (size_t i = 0; i < stacks.size(); ++i) munmap(stacks[i], STACK);
}

SwitchGen::SwitchGen(Rng& r) {
    percent = int(r.pick({20, 50, 80, 100}));
    mean = int(r.pick({1, 3, 10, 30, 100}));
    n = int(r.pick({1, 1, 2, 3}));
    globals = r.chance(70);
    calls = r.chance(60);
}
void SwitchGen::gen(Rng& r, Plan& p, int op, int threads, int me) const {
    if (!r.chance(percent)) return;
    for (int i = 0; i < n; ++i) {
        int kind = K_ANY;
        if (globals && r.chance(45)) kind = K_GLOBAL;
        else if (calls && r.chance(45)) kind = K_CALL;
        int64_t k = kind == K_ANY ? r.geo(mean) : r.geo(kind == K_CALL ? 4 : std::min(mean, 10));
        int target = int(r.below(threads));
        if (target == me) target = (target + 1) % threads;
        p.add("sw", {op, kind, k, target});
    }
}

} // namespace sim

// ---------------------------------------------------------------- ThreadSanitizer interface
using namespace sim;
static inline __attribute__((always_inline)) void access(void* p) {
    Thr* t = self;
    if (!t || t->in_op != 1) return;
    char* c = static_cast<char*>(p);
    if (c >= t->lo && c < t->hi) return;
    point_slow(t, (c >= &__data_start && c < &_end) ? K_GLOBAL : K_ANY);
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void* p) { access(p); } void __tsan_write##n(void* p) { access(p); } \
    void __tsan_read_write##n(void* p) { access(p); } \
    void __tsan_unaligned_read##n(void* p) { access(p); } void __tsan_unaligned_write##n(void* p) { access(p); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p); } \
    void __tsan_volatile_read##n(void* p) { access(p); } void __tsan_volatile_write##n(void* p) { access(p); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long) { access(p); }
void __tsan_write_range(void* p, unsigned long) { access(p); }
void __tsan_vptr_update(void** p, void*) { (void)p; }
void __tsan_vptr_read(void** p) { (void)p; }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    access(const_cast<void*>(s));
    // a copy between two shared places can be interrupted in the middle
    if (n >= 16) {
        size_t h = (n / 2) & ~size_t(7);
        memmove(d, s, h);
        access(d);
        memmove(static_cast<char*>(d) + h, static_cast<const char*>(s) + h, n - h);
        return d;
    }
    access(d);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) { access(const_cast<void*>(s)); access(d); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d); return memset(d, c, n); }
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { access((void*)p); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { access((void*)p); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { access((void*)p); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { access((void*)p); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access((void*)p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { access((void*)p); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int, int) { access((void*)p); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks: waiting hands the turn over
static void* real(const char* n) { return dlsym(RTLD_NEXT, n); }
static inline bool mine() { return self && self->in_op == 1; }

// Locks taken inside operations are simulated (the real object stays untouched): owner and depth by address.
struct LockRec { void* m; int owner; int depth; int readers; };
static LockRec lock_tab[256];
static int lock_n = 0;
static LockRec* lock_of(void* m) {
    for (int i = 0; i < lock_n; ++i) if (lock_tab[i].m == m) return &lock_tab[i];
    for (int i = 0; i < lock_n; ++i)
        if (!lock_tab[i].depth && !lock_tab[i].readers) { lock_tab[i].m = m; lock_tab[i].owner = -1; return &lock_tab[i]; }
    if (lock_n == 256) violate("lock-table", "too many locks");
    LockRec& l = lock_tab[lock_n++];
    l.m = m; l.owner = -1; l.depth = 0; l.readers = 0;
    return &l;
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static int take(void* m, bool rec, bool wait) {
    point_slow(self, K_CALL);
    for (;;) {
        LockRec* l = lock_of(m);
        if (!l->readers && (!l->depth || (rec && l->owner == self->id))) { l->owner = self->id; ++l->depth; return 0; }
        if (!wait) return EBUSY;
        if (l->depth && l->owner == self->id) violate("deadlock", "a thread locks a lock it already holds");
        block_yield();
    }
}
static int release(void* m) {
    LockRec* l = lock_of(m);
    if (l->depth && l->owner == self->id) --l->depth;
    else if (l->readers) --l->readers;
    point_slow(self, K_CALL);
    return 0;
}
static int take_read(void* m, bool wait) {
    point_slow(self, K_CALL);
    for (;;) {
        LockRec* l = lock_of(m);
        if (!l->depth) { ++l->readers; return 0; }
        if (!wait) return EBUSY;
        block_yield();
    }
}
#define REAL1(name, T) static int (*r)(T*) = (int (*)(T*))real(name); return r(m)
int pthread_mutex_lock(pthread_mutex_t* m) { if (mine()) return take(m, recursive(m), true); REAL1("pthread_mutex_lock", pthread_mutex_t); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (mine()) return take(m, recursive(m), false); REAL1("pthread_mutex_trylock", pthread_mutex_t); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (mine()) return release(m); REAL1("pthread_mutex_unlock", pthread_mutex_t); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (mine()) return take_read(m, true); REAL1("pthread_rwlock_rdlock", pthread_rwlock_t); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (mine()) return take_read(m, false); REAL1("pthread_rwlock_tryrdlock", pthread_rwlock_t); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (mine()) return take(m, false, true); REAL1("pthread_rwlock_wrlock", pthread_rwlock_t); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (mine()) return take(m, false, false); REAL1("pthread_rwlock_trywrlock", pthread_rwlock_t); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (mine()) return release(m); REAL1("pthread_rwlock_unlock", pthread_rwlock_t); }
int pthread_spin_lock(pthread_spinlock_t* m) { if (mine()) return take((void*)m, false, true); REAL1("pthread_spin_lock", pthread_spinlock_t); }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (mine()) return release((void*)m); REAL1("pthread_spin_unlock", pthread_spinlock_t); }

// function-local statics: byte 0 of the guard says initialised, byte 1 in progress
int __cxa_guard_acquire(uint64_t* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    if (b[0]) return 0;
    if (mine()) point_slow(self, K_CALL);
    while (!b[0] && b[1]) block_yield();
    if (b[0]) return 0;
    b[1] = 1;
    if (self) ++self->guards;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    b[1] = 0; b[0] = 1;
    if (self && self->guards) --self->guards;
    if (mine()) point_slow(self, K_CALL);
}
void __cxa_guard_abort(uint64_t* g) { if (self && self->guards) --self->guards; ((volatile unsigned char*)g)[1] = 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!mine()) { static int (*r)(pthread_once_t*, void (*)()) = (int (*)(pthread_once_t*, void (*)()))real("pthread_once"); return r(o, fn); }
    // glibc: bit 1 = done (value 2)
    volatile int* v = (volatile int*)o;
    if (*v & 2) return 0;
    point_slow(self, K_CALL);
    while (!(*v & 2) && (*v & 1)) block_yield();
    if (*v & 2) return 0;
    *v = 1;
    ++self->guards;
    fn();
    --self->guards;
    *v = 2;
    return 0;
}
int sched_yield() { if (mine()) { block_yield(); return 0; } return 0; }
}
