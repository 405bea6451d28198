// Shared between the parts of the simulator. Not seen by the workloads.
#ifndef SIM_INTERNAL_HPP
#define SIM_INTERNAL_HPP
#include "sim.hpp"
#include <semaphore.h>
#include <pthread.h>

namespace sim {

struct Counter { char name[48]; uint64_t n; };
enum { MAX_COUNTERS = 256 };
struct Shared {                 // one per batch process, inherited by every run
    // per run
    int status;                 // 0 running/ok, 1 violation, 2 invalid plan
    char cls[96];
    char detail[6000];
    uint64_t hash, points, switches;
    int nontrivial;
    // accumulated
    int ncounters;
    Counter counters[MAX_COUNTERS];
};
extern Shared* sh;

struct Switch { int kind; int64_t k; int target; };
struct IoState {
    bool armed;
    std::vector<IoFault> faults;
    int64_t written, read_, calls, rcalls;
    bool fired[F_KINDS];
    bool in_crash_process;
};
struct Thr {
    int id;
    char* lo; char* hi;
    int in_op;                  // hooks live when 1
    int op;
    int64_t cnt[K_KINDS];
    const Switch* sw; int nsw;
    sem_t sem;
    bool done;
    pthread_t pt;
    IoState io;
    int64_t fail_in; bool alloc_failed;    // the allocation that fails, counted down
    int guards;                            // static initialisations under way: what they allocate lives as long as the program
    void (*fn)(int, void*); void* arg;
};
extern __thread Thr* self;
extern bool trace_on;

void point_slow(Thr*, int kind);
void block_yield();             // the calling thread waits for another one
static inline void point_in(Thr* t, int kind) { point_slow(t, kind); }
bool sched_active();

// scoped: no hooks on this thread
struct Quiet { Thr* t; int saved; Quiet() : t(self), saved(t ? t->in_op : 0) { if (t) t->in_op = 0; }
               ~Quiet() { if (t) t->in_op = saved; } };

void mem_run_start();
void disk_run_start(const std::string& dir);
void disk_real_cleanup(const std::string& dir);
extern int stdout_fd;
void real_write_all(int fd, const void* p, size_t n);
}
#endif
