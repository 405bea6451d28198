// C10-C13: programs of several threads over private objects and shared read-only ones, against every operation alone.
// C19: the same programs, and failing operations, against the documented values of the library's constants.
#include "fill.hpp"
#include "constants.hpp"
#include <unistd.h>
#include <exception>
#include <typeinfo>

namespace sim {
#if defined(PROP_C10)
const char* const workload_property = "C10";
#elif defined(PROP_C11)
const char* const workload_property = "C11";
#elif defined(PROP_C12)
const char* const workload_property = "C12";
#elif defined(PROP_C13)
const char* const workload_property = "C13";
#else
const char* const workload_property = "C19";
#endif
#if defined(PROP_C19)
const char* const workload_rule = "A case is one program of one to four threads applying public operations, some of them rejected or out of memory, to own objects, shared objects, constants and copies of constants, under the planned switches; all constants are compared with their documented values after every operation and at every switch. It is non-trivial if at least two operations ran.";
#else
const char* const workload_rule = "A case is one program of one to four threads over own and shared objects under the planned switches; every operation's results and written bytes are compared with those of the same operation executed alone on copies of its operands (other addresses, other memory contents, other order). It is non-trivial if at least two operations ran.";
#endif

using namespace conc;

#if defined(PROP_C19)
enum { FAMILIES = 4 };
#define IN_VECTOR 1
#define IN_MATRIX 1
#define IN_QUATERNION 1
#define IN_GEOMETRY 1
#elif defined(PROP_C10)
#define IN_VECTOR 1
#elif defined(PROP_C11)
#define IN_MATRIX 1
#elif defined(PROP_C12)
#define IN_QUATERNION 1
#else
#define IN_GEOMETRY 1
#endif

template <class T> struct Family { static void quat(Table<T>& t) {
#ifdef IN_QUATERNION
    reg_quaternion<T>(t);
#endif
#ifdef IN_GEOMETRY
    reg_geometry<T>(t);
#endif
    } };
template <> struct Family<int> { static void quat(Table<int>&) {} };

template <class T> Table<T>& table() {
    static Table<T>* t = 0;
    if (!t) {
        t = new Table<T>();
#ifdef IN_VECTOR
        reg_vector<T>(*t);
#endif
#ifdef IN_MATRIX
        reg_matrix<T>(*t); reg_matrix2<T>(*t); reg_square<T>(*t); reg_big<T>(*t);
#endif
        Family<T>::quat(*t);
#ifdef PROP_C19
        reg_constants<T>(*t);
#endif
    }
    return *t;
}
#if defined(PROP_C10) || defined(PROP_C11)
enum { TYPES = 4 };
typedef int Third; typedef LongDouble Fourth;
static const char* const type_names[] = {"float", "double", "int", "long double"};
#elif defined(PROP_C19)
enum { TYPES = 3 };
typedef int Third; typedef int Fourth;
static const char* const type_names[] = {"float", "double", "int"};
#else
enum { TYPES = 3 };
typedef LongDouble Third; typedef LongDouble Fourth;
static const char* const type_names[] = {"float", "double", "long double"};
#endif
// the bank of a type, and what is done with it
#define WITH_TYPE(TY, F, ...) ((TY) == 0 ? F<float>(__VA_ARGS__) : (TY) == 1 ? F<double>(__VA_ARGS__) : (TY) == 3 ? F<Fourth>(__VA_ARGS__) : F<Third>(__VA_ARGS__))
template <class T> static size_t size_of() { return table<T>().ops.size(); }
template <class T> static const std::string& name_of(size_t k) { return table<T>().ops[k].name; }
static size_t table_size(int type) { return WITH_TYPE(type, size_of, ); }
static const std::string& op_name(int type, size_t k) { return WITH_TYPE(type, name_of, k); }

enum { BANK = sizeof(Bank<Third>) > sizeof(Bank<double>) || TYPES > 3 ? sizeof(Bank<LongDouble>) : sizeof(Bank<double>), TEXT = 160, MAX_OPS = 512 };
struct Rec {                            // what one operation did
    int id, thread, type, kind;
    int64_t a[ARGS], reps;
    bool done;
    Env env;
    char threw[TEXT];
    char before[BANK], after[BANK];
};
struct Log { int n; Rec rec[MAX_OPS]; };
struct Run {
    const Plan* plan;
    Log* log;
    Regs* shared;
    std::vector<int> of_thread[16];
    std::vector<int> order;
};
static Run* run = 0;
static uint64_t shared_hash = 0;

template <class T> static Bank<T>& bank_of(Regs& r);
template <> Bank<float>& bank_of<float>(Regs& r) { return r.f; }
template <> Bank<double>& bank_of<double>(Regs& r) { return r.d; }
template <> Bank<int>& bank_of<int>(Regs& r) { return r.i; }
#ifndef PROP_C19
template <> Bank<LongDouble>& bank_of<LongDouble>(Regs& r) { return r.l; }
#endif

static void fill_all(const Line& l, Regs& to) {
    Filler<float>(uint64_t(l.arg(1)), int(l.arg(2))).bank(to.f);
    Filler<double>(uint64_t(l.arg(1)) + 1, int(l.arg(2))).bank(to.d);
    Filler<int>(uint64_t(l.arg(1)) + 2, int(l.arg(2))).bank(to.i);
#ifndef PROP_C19
    Filler<LongDouble>(uint64_t(l.arg(1)) + 3, int(l.arg(2))).bank(to.l);
#endif
}
static void watch() {
#ifdef PROP_C19
    std::string w = check_constants();
    if (!w.empty()) violate("constant-changed", w);
#else
    if (hash_bytes(run->shared, sizeof(Regs)) != shared_hash) violate("shared-changed", "an object that operations only read has changed");
#endif
}

template <class T> static void call(Rec& r, C<T>& c, bool scribble) {
    r.threw[0] = 0;
    OpScope s(r.id, scribble);
    try {
        table<T>().ops[size_t(r.kind)].fn(c);
        s.end();
    } catch (const std::exception& e) {
        s.end();
        snprintf(r.threw, TEXT, "%s: %s", typeid(e).name(), e.what());
    } catch (...) {
        s.end();
        snprintf(r.threw, TEXT, "unknown exception");
    }
}
template <class T> static void prepare(C<T>& c, const Rec& r, Bank<T>* own, Bank<T>* shared, char* arena) {
    memset(static_cast<void*>(static_cast<Env*>(&c)), 0, sizeof(Env));
    memcpy(c.a, r.a, sizeof c.a);
    c.base = reinterpret_cast<char*>(own); c.size = sizeof(Bank<T>);
    c.fresh = arena != 0; c.arena = arena;
    c.own = own; c.shared = shared;
    c.old = arena ? 2 + (r.id + int(r.a[0] & 7)) % 6 : 1;
    c.outh = 1;
}
static std::string describe(const Rec& r) {
    return fmt("operation %d (%s %s, thread %d, arguments %d %d %d %d %d %d)", r.id, type_names[r.type],
               op_name(r.type, size_t(r.kind)).c_str(), r.thread, int(r.a[0]), int(r.a[1]), int(r.a[2]), int(r.a[3]), int(r.a[4]), int(r.a[5]));
}
template <class T> static void in_program(Rec& r, Regs& own) {
    Bank<T>& b = bank_of<T>(own);
    Filler<T>(0, int(run->plan->get("wild", 0)) ? int(Filler<T>::WILD) : 0).tame(b);
    C<T>* c = new C<T>;
    if (r.reps > 0) {                   // a long history of the same operation, on other objects
        Bank<T>* other = new Bank<T>;
        for (int64_t i = 0; i < r.reps; ++i) {
            memcpy(static_cast<void*>(other), static_cast<void*>(&b), sizeof b);
            prepare(*c, r, other, &bank_of<T>(*run->shared), 0);
            OpScope s(r.id + 1000000, false);
            try { table<T>().ops[size_t(r.kind)].fn(*c); } catch (...) {}
            s.end();
        }
        delete other;
        count("programs.long_history");
    }
    prepare(*c, r, &b, &bank_of<T>(*run->shared), 0);
    memcpy(r.before, static_cast<void*>(&b), sizeof b);
    note(describe(r));
#ifdef PROP_C19
    if (r.a[5] < 0) fail_alloc(-1 - r.a[5]);
#endif
    call(r, *c, true);
#ifdef PROP_C19
    fail_alloc(-1);
#endif
    memcpy(r.after, static_cast<void*>(&b), sizeof b);
    Padding<T>::set(r.before, sizeof b, 0);
    Padding<T>::set(r.after, sizeof b, 0);
    memcpy(static_cast<void*>(&r.env), static_cast<void*>(static_cast<Env*>(c)), sizeof(Env));
    r.done = true;
    delete c;
    event("op", uint64_t(r.id), hash_bytes(r.after, sizeof b, r.env.outh));
    if (r.threw[0]) count("op.threw");
    count("op.run");
#ifdef PROP_C19
    watch();
#else
    // what it does not write stays as it was
    std::vector<char> may(sizeof b, 0);
    for (int i = 0; i < r.env.ndst; ++i)
        for (size_t k = 0; k < r.env.dst[i].len; ++k) may[r.env.dst[i].off + k] = 1;
    for (size_t k = 0; k < sizeof b; ++k)
        if (!may[k] && r.before[k] != r.after[k])
            violate("operand-changed", describe(r) + fmt(" changed an object it only reads (byte %d of the own objects)", int(k)));
#endif
}
static void body(int t, void*) {
    Regs own;
    memset(static_cast<void*>(&own), 0, sizeof own);
    for (size_t i = 0; i < run->plan->lines.size(); ++i) {
        const Line& l = run->plan->lines[i];
        if (l.k != "init" || l.arg(0) != t) continue;
        fill_all(l, own);
    }
    for (size_t i = 0; i < run->of_thread[t].size(); ++i) {
        Rec& r = run->log->rec[run->of_thread[t][i]];
        WITH_TYPE(r.type, in_program, r, own);
    }
}

// ---------------------------------------------------------------- alone
#ifndef PROP_C19
enum { ARENA = 32768 };
template <class T> static void alone(Rec& r) {
    char* mem = new char[sizeof(Bank<T>) + 64];
    Bank<T>* own = reinterpret_cast<Bank<T>*>(mem + 16 * (1 + r.id % 3));
    memcpy(static_cast<void*>(own), r.before, sizeof *own);
    char* arena = new char[ARENA];
    C<T>* c = new C<T>;
    prepare(*c, r, own, &bank_of<T>(*run->shared), arena);
    char threw[TEXT];
    memcpy(threw, r.threw, TEXT);
    call(r, *c, true);
    Padding<T>::set(own, sizeof *own, 0);
    if (c->used > ARENA) { fprintf(stderr, "arena\n"); _exit(9); }
    std::string what;
    if (strcmp(threw, r.threw)) what = fmt("ended with '%s' instead of '%s'", threw, r.threw);
    else if (c->outn != r.env.outn || c->outh != r.env.outh) {
        what = "gave " + hex(r.env.obuf, r.env.outn) + " instead of " + hex(c->obuf, c->outn);
    } else if (memcmp(r.after, static_cast<void*>(own), sizeof *own)) {
        size_t k = 0;
        while (r.after[k] == reinterpret_cast<char*>(own)[k]) ++k;
        k &= ~(sizeof(T) - 1);
        T a, b;
        memcpy(&a, r.after + k, sizeof a); memcpy(&b, reinterpret_cast<char*>(own) + k, sizeof b);
        what = fmt("wrote %.17g instead of %.17g (byte %d of the own objects)", double(a), double(b), int(k));
    }
    if (!what.empty()) violate("isolation", describe(r) + " " + what + ", which it gives alone");
    event("alone", uint64_t(r.id));
    delete c; delete[] arena; delete[] mem;
}
static void alone_body(int, void*) {
    for (size_t i = 0; i < run->order.size(); ++i) {
        Rec& r = run->log->rec[run->order[i]];
        if (!r.done) continue;
        WITH_TYPE(r.type, alone, r);
    }
}
static void twin_body(void*) {
    set_poison(int(run->plan->get("poison", 0xA5)) ^ 0x66);
    load_switches(Plan());
    run_threads(1, alone_body, 0);
}
#endif

// ---------------------------------------------------------------- plans
// operations that change an object of a family, by name prefix, so that a repeated operation meets new values
static const std::vector<size_t>& pokes(int type, const std::string& prefix) {
    static std::vector<std::pair<std::string, std::vector<size_t> > > cache[4];
    for (size_t i = 0; i < cache[type].size(); ++i) if (cache[type][i].first == prefix) return cache[type][i].second;
    static const char* const names[] = {"call_write", "at_write", "pointer_write", "add_s_in", "assign", "mul_s_in", "xyzw_write", "planes_write", "get_write", "set_size", "setup_m"};
    std::vector<size_t> v;
    for (size_t k = 0; k < table_size(type); ++k)
        for (size_t j = 0; j < sizeof names / sizeof *names; ++j)
            if (op_name(type, k) == prefix + names[j]) v.push_back(k);
    cache[type].push_back(std::make_pair(prefix, v));
    return cache[type].back().second;
}
static std::string prefix_of(const std::string& n) { size_t d = n.find('.'); return d == std::string::npos ? n : n.substr(0, d + 1); }

void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    int64_t threads = r.pick({1, 2, 2, 3, 4});
    int64_t per = r.range(2, 10);
    if (r.chance(tier ? 10 : 4)) { threads = 1; per = r.range(40, tier ? 400 : 150); }
    p.set("threads", threads);
    p.set("first", r.below(threads));
    p.set("shuffle", r.below(1 << 30));
    const int64_t seed = r.below(1 << 30), style = r.chance(8) ? 6 : r.chance(50) ? r.below(6) : -1;
    p.set("wild", style == 6);
    p.add("init", {-1, seed, style});
    const bool twins = r.chance(30);           // all threads start from the same values
    for (int64_t t = 0; t < threads; ++t) p.add("init", {t, twins ? seed : seed + 10 * (t + 1), style});
    const int base_type = int(r.below(TYPES));
    SwitchGen sg(r);
    // the swarm of this run
    std::vector<size_t> kinds[TYPES];
    const int nk = int(r.range(1, 5));
    for (int ty = 0; ty < TYPES; ++ty) {
        std::string family;
        for (int i = 0; i < nk; ++i) {
            size_t k = size_t(r.below(int64_t(table_size(ty))));
            if (i && r.chance(60)) {           // related operations meet more often
                std::string want = prefix_of(op_name(ty, kinds[ty][0]));
                for (int tries = 0; tries < 400 && prefix_of(op_name(ty, k)) != want; ++tries) k = size_t(r.below(int64_t(table_size(ty))));
            }
            kinds[ty].push_back(k);
        }
    }
    const int64_t spread = r.pick({2, 3, 16});
    std::vector<std::vector<int64_t> > last; last.resize(size_t(threads));
    for (int64_t i = 0, id = 0; i < per * threads && id < MAX_OPS - 2; ++i) {
        const int64_t t = i % threads;
        const int ty = r.chance(85) ? base_type : int(r.below(TYPES));
        std::vector<int64_t>& prev = last[size_t(t)];
        ++id;
        if (!prev.empty() && r.chance(35)) {
            std::vector<int64_t> again = prev;
            const std::vector<size_t>& pk = pokes(int(prev[2]), prefix_of(op_name(int(prev[2]), size_t(prev[3]))));
            if (!pk.empty() && r.chance(80)) {
                std::vector<int64_t> poke;
                poke.push_back(id); poke.push_back(t); poke.push_back(prev[2]); poke.push_back(int64_t(pk[size_t(r.below(int64_t(pk.size())))]));
                poke.push_back(prev[4 + size_t(r.below(4))]);
                for (int k = 1; k < ARGS; ++k) poke.push_back(r.below(64));
                p.add("op", poke);
                ++id;
            }
            again[0] = id;
            if (r.chance(25)) again[4 + size_t(r.below(ARGS))] += r.chance(60) ? 16 : 1;    // one argument different, perhaps only a little
            prev = again;
        } else {
            prev.clear();
            prev.push_back(id); prev.push_back(t); prev.push_back(ty);
            prev.push_back(int64_t(r.chance(60) ? kinds[ty][0] : kinds[ty][size_t(r.below(nk))]));
            for (int k = 0; k < ARGS; ++k) prev.push_back(r.chance(60) ? r.below(spread) : r.below(64));
        }
#ifdef PROP_C19
        prev[4 + 5] = r.chance(10) ? -1 - r.below(3) : r.below(64);
#endif
        if (r.chance(tier ? 2 : 1)) {                  // counters that wrap, buffers that fill up
            prev.resize(4 + ARGS);
            prev.push_back(r.pick({15, 63, 99, 255, 256, tier ? 4096 : 999, tier ? 65536 : 300}) + r.range(-1, 1));
            p.add("op", prev);
            prev.resize(4 + ARGS);
        } else
        p.add("op", prev);
        if (threads > 1) sg.gen(r, p, int(id), int(threads), int(t));
    }
}

void workload_exec(const Plan& p) {
    Run R;
    run = &R;
    R.plan = &p;
    set_poison(int(p.get("poison", 0xA5)));
    const int threads = int(std::max<int64_t>(1, std::min<int64_t>(8, p.get("threads", 1))));
    size_t ops = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) ops += p.lines[i].k == "op";
    if (ops > MAX_OPS) invalid();
    R.log = static_cast<Log*>(shared_memory(sizeof(int) * 16 + sizeof(Rec) * (ops + 1)));
    R.log->n = 0;
    for (size_t i = 0; i < p.lines.size(); ++i) {
        const Line& l = p.lines[i];
        if (l.k != "op") continue;
        Rec& r = R.log->rec[R.log->n];
        r.id = int(l.arg(0)); r.thread = int(l.arg(1)); r.type = int(l.arg(2)); r.kind = int(l.arg(3));
        for (int k = 0; k < ARGS; ++k) r.a[k] = l.arg(size_t(4 + k));
        r.reps = std::max<int64_t>(0, std::min<int64_t>(70000, l.arg(size_t(4 + ARGS), 0)));
        if (r.thread < 0 || r.thread >= threads || r.type < 0 || r.type >= TYPES || r.kind < 0 || size_t(r.kind) >= table_size(r.type)) invalid();
        R.of_thread[r.thread].push_back(R.log->n);
        R.order.push_back(R.log->n++);
    }
    Rng sh(uint64_t(p.get("shuffle", 0)));
    for (size_t i = R.order.size(); i > 1; --i) std::swap(R.order[i - 1], R.order[size_t(sh.below(int64_t(i)))]);
    R.shared = new Regs;
    memset(static_cast<void*>(R.shared), 0, sizeof(Regs));
    for (size_t i = 0; i < p.lines.size(); ++i) {
        const Line& l = p.lines[i];
        if (l.k != "init" || l.arg(0) != -1) continue;
        fill_all(l, *R.shared);
    }
    shared_hash = hash_bytes(R.shared, sizeof(Regs));
#ifndef PROP_C19
    twin_start(twin_body, 0);
#endif
    watch();
    set_switch_hook(watch);
    run_threads(threads, body, 0, int(p.get("first", 0)));
    set_switch_hook(0);
    watch();
    count(threads == 1 ? "programs.one_thread" : "programs.several_threads");
    if (R.log->n >= 2) nontrivial();
#ifndef PROP_C19
    twin_run();
#endif
}
} // namespace sim
