// Deterministic simulation core: interface for the workloads in /verif/checks.
//
// A run is a pure function of (plan, code). A plan is a list of text lines ("kind int int ..."), generated
// from one seed; every operation, fault and context switch of the run is one removable line of it.
#ifndef SIM_HPP
#define SIM_HPP
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <initializer_list>
#include <ostream>
#include <sstream>

namespace sim {

// ---------------------------------------------------------------- randomness (simulator only)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int64_t below(int64_t n) { return n <= 0 ? 0 : int64_t(next() % uint64_t(n)); }
    int64_t range(int64_t lo, int64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(int percent) { return below(100) < percent; }
    double unit() { return double(next() >> 11) / 9007199254740992.0; }
    int64_t geo(int64_t mean) {           // geometric-ish, 0.. , given mean
        int64_t k = 0;
        while (k < 4000 && below(mean + 1) != 0) ++k;
        return k;
    }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(int64_t(l.size()))); }
};
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

// ---------------------------------------------------------------- plans
struct Line {
    std::string k;
    std::vector<int64_t> a;
    int64_t arg(size_t i, int64_t def = 0) const { return i < a.size() ? a[i] : def; }
};
struct Plan {
    std::vector<Line> lines;
    void add(const char* k, const std::vector<int64_t>& a) { Line l; l.k = k; l.a = a; lines.push_back(l); }
    void set(const char* k, int64_t v) { Line l; l.k = k; l.a.push_back(v); lines.push_back(l); }
    int64_t get(const char* k, int64_t def) const {
        for (size_t i = 0; i < lines.size(); ++i)
            if (lines[i].k == k && !lines[i].a.empty()) return lines[i].a[0];
        return def;
    }
    std::string text() const;
    bool parse(const std::string&);
};

// ---------------------------------------------------------------- the workload (defined by each check)
extern const char* const workload_property;
extern const char* const workload_rule;     // what a case is and when it counts as non-trivial
void workload_gen(Rng&, Plan&, int tier);   // tier 0 quick, 1 thorough
void workload_exec(const Plan&);

// ---------------------------------------------------------------- run services
[[noreturn]] void violate(const std::string& cls, const std::string& detail);
[[noreturn]] void invalid();               // the plan makes no sense (only met while minimising)
void event(uint64_t v);                    // into the run's event hash
void event(const char* what, uint64_t a = 0, uint64_t b = 0);
void count(const char* name, uint64_t n = 1);   // evidence counters and reach probes
void nontrivial();                         // this run met the rule for a non-trivial case
bool tracing();
void note(const std::string&);             // trace only
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void* p, size_t n);

// ---------------------------------------------------------------- operations and schedule
// While an OpScope is alive on a thread the hooks act for that thread: memory accesses outside its own stack,
// allocations, system calls, rand and locks are scheduling points; allocation and I/O faults can fire.
struct OpScope {
    explicit OpScope(int id, bool scribble = true);
    ~OpScope();
    void end();                            // leave before destruction
    bool live;
};
// suspends the hooks on this thread, for harness code called back from the library
struct Pause { int saved; Pause(); ~Pause(); };

enum { K_ANY = 0, K_GLOBAL = 1, K_CALL = 2, K_KINDS = 3 };
void load_switches(const Plan&);           // "sw op kind k target"
void run_threads(int n, void (*fn)(int, void*), void* arg, int first = 0);
void set_switch_hook(void (*fn)());        // called at every context switch (hooks suspended)
int  current_thread();
uint64_t points();                         // scheduling points so far in this run
void point(int kind);
// standard generator of switches for operation id, given density settings
struct SwitchGen {
    int percent, mean, n; bool globals, calls;
    explicit SwitchGen(Rng&);
    void gen(Rng&, Plan&, int op, int threads, int self) const;
};

// ---------------------------------------------------------------- memory
void set_poison(int byte);                 // fill of fresh heap memory and of dead stack
void fail_alloc(int64_t k);                // the k-th (from 0) next allocation in this thread's operations fails; -1 none
bool alloc_failed();                       // did it fire
int64_t op_allocs();                       // allocations since op_alloc_reset
int64_t op_outstanding();                  // allocated inside operations, not freed
void op_alloc_reset();
void fail_malloc_too(bool);                // count plain malloc as well

// ---------------------------------------------------------------- generator seam (rand/srand)
struct Draw { int thread; int op; int value; };
void rand_script(int (*fn)(uint64_t n, uint64_t seed), uint64_t salt); // value of n-th draw since srand(seed)
const std::vector<Draw>& rand_draws();
const std::vector<Draw>& rand_seeds();
void rand_clear();
void rand_log(bool);

// ---------------------------------------------------------------- disk seam
struct IoFault {
    int type; int64_t a, b;
};
enum { F_NONE = 0, F_SHORT = 1, F_EINTR = 2, F_WRITE_ERR = 3, F_READ_ERR = 4, F_OPEN_ERR = 5, F_CLOSE_ERR = 6,
       F_CRASH_BYTE = 7, F_CRASH_CALL = 8,
       F_WRITE_ONCE = 9, F_READ_ONCE = 10, F_KINDS = 11 };   // the a-th transfer fails with errno b, later ones work
extern const char* const fault_names[F_KINDS];
void io_faults(const std::vector<IoFault>&); // for the current thread's operations
void io_clear();
bool io_fired(int type);                     // has this kind changed the outcome of a call since io_faults
std::string scratch();                       // this run's directory (ends without '/'), created empty, cwd
std::string read_file(const std::string& path, bool* ok = 0);
bool write_file(const std::string& path, const std::string& bytes);
std::vector<std::string> list_files(const std::string& dir); // sorted, recursive, relative
uint64_t tree_hash(const std::string& dir, const std::string& except);
int  open_fds();
// runs fn in a forked process; true if the simulated crash ended it
bool in_process(void (*fn)(void*), void* arg);
// a copy of the process as it is now, which runs fn when twin_run is called (and then ends)
void twin_start(void (*fn)(void*), void* arg);
void twin_run();
// memory that forked copies of the process share
void* shared_memory(size_t);

// ---------------------------------------------------------------- standard output
void cout_clear();
std::string cout_text();                   // what reached std::cout or descriptor 1 since cout_clear

} // namespace sim
#endif
