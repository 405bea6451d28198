// Run isolation, results, minimisation, batches.
#include "internal.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <iostream>
#include <fstream>
#include <set>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <sched.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>

namespace sim {
Shared* sh = 0;
bool trace_on = false;
int stdout_fd = -1;
void sched_cap(uint64_t);
void sched_totals(uint64_t&, uint64_t&);

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = mix(h, v); c += 8; n -= 8; }
    while (n--) h = (h ^ *c++) * 0x100000001b3ull;
    return mix(h, 0x77);
}

// ---------------------------------------------------------------- plans
std::string Plan::text() const {
    std::string s;
    for (size_t i = 0; i < lines.size(); ++i) {
        s += lines[i].k;
        for (size_t j = 0; j < lines[i].a.size(); ++j) s += " " + std::to_string((long long)lines[i].a[j]);
        s += "\n";
    }
    return s;
}
bool Plan::parse(const std::string& s) {
    lines.clear();
    std::istringstream is(s);
    std::string l;
    while (std::getline(is, l)) {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream ls(l);
        Line x; long long v;
        if (!(ls >> x.k)) continue;
        while (ls >> v) x.a.push_back(v);
        lines.push_back(x);
    }
    return true;
}

// ---------------------------------------------------------------- run services
static void totals() { sched_totals(sh->points, sh->switches); }
void violate(const std::string& cls, const std::string& detail) {
    Quiet q;
    if (sh->status == 0) {
        sh->status = 1;
        snprintf(sh->cls, sizeof sh->cls, "%s", cls.c_str());
        snprintf(sh->detail, sizeof sh->detail, "%s", detail.c_str());
        event("violation");
        totals();
        note("VIOLATED " + cls + ": " + detail);
    }
    _exit(3);
}
void invalid() { sh->status = 2; _exit(4); }
void event(uint64_t v) { sh->hash = mix(sh->hash, v); }
void event(const char* w, uint64_t a, uint64_t b) {
    uint64_t h = sh->hash;
    for (; *w; ++w) h = (h ^ uint64_t((unsigned char)*w)) * 0x100000001b3ull;
    sh->hash = mix(mix(h, a), b);
}
void count(const char* name, uint64_t n) {
    for (int i = 0; i < sh->ncounters; ++i)
        if (!strcmp(sh->counters[i].name, name)) { sh->counters[i].n += n; return; }
    if (sh->ncounters < MAX_COUNTERS) {
        Counter& c = sh->counters[sh->ncounters++];
        snprintf(c.name, sizeof c.name, "%s", name);
        c.n = n;
    }
}
void nontrivial() { sh->nontrivial = 1; }
bool tracing() { return trace_on; }
void note(const std::string& s) {
    if (!trace_on) return;
    Quiet q;
    fprintf(stderr, "%s\n", s.c_str());
}
std::string fmt(const char* f, ...) {
    char b[4096];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
std::string hex(const void* p, size_t n) {
    std::string s;
    for (size_t i = 0; i < n && i < 64; ++i) s += fmt("%02x", static_cast<const unsigned char*>(p)[i]);
    if (n > 64) s += "...";
    return s;
}

// ---------------------------------------------------------------- rand seam
namespace {
struct RandState {
    int (*fn)(uint64_t, uint64_t); uint64_t salt, seed, n; bool log;
    std::vector<Draw> draws, seeds;
} R;
int default_rand(uint64_t n, uint64_t seed) { return int(mix(mix(77, seed), n) & 0x7fffffff); }
}
void rand_script(int (*fn)(uint64_t, uint64_t), uint64_t salt) { R.fn = fn ? fn : default_rand; R.salt = salt; R.n = 0; R.seed = salt; }
const std::vector<Draw>& rand_draws() { return R.draws; }
const std::vector<Draw>& rand_seeds() { return R.seeds; }
void rand_clear() { Quiet q; R.draws.clear(); R.seeds.clear(); }
void rand_log(bool b) { R.log = b; }
static int hooked_rand() {
    Thr* t = self;
    if (t && t->in_op == 1) point_slow(t, K_CALL);
    Quiet q;
    int v = R.fn ? R.fn(R.n++, R.seed) : default_rand(R.n++, R.seed);
    if (R.log && t) { Draw d = {t->id, t->op, v}; R.draws.push_back(d); }
    event("rand", uint64_t(v));
    return v;
}
static void hooked_srand(unsigned s) {
    Thr* t = self;
    if (t && t->in_op == 1) point_slow(t, K_CALL);
    Quiet q;
    R.seed = mix(R.salt, s); R.n = 0;
    if (R.log && t) { Draw d = {t->id, t->op, int(s)}; R.seeds.push_back(d); }
    event("srand", s);
}

// ---------------------------------------------------------------- standard output
namespace {
struct CaptureBuf : std::streambuf {
    std::string s;
    int_type overflow(int_type c) { Quiet q; if (c != traits_type::eof()) s += char(c); return 0; }
    std::streamsize xsputn(const char* p, std::streamsize n) { Quiet q; s.append(p, size_t(n)); return n; }
};
CaptureBuf* cap = 0;
off_t cap_fd_pos = 0;
}
void cout_clear() {
    Quiet q;
    std::cout.flush();
    fflush(stdout);
    cap->s.clear();
    struct stat st;
    cap_fd_pos = fstat(1, &st) == 0 ? st.st_size : 0;
}
std::string cout_text() {
    Quiet q;
    std::cout.flush();
    fflush(stdout);
    std::string s = cap->s;
    struct stat st;
    if (fstat(1, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > cap_fd_pos) {
        std::string b(size_t(st.st_size - cap_fd_pos), 0);
        ssize_t n = pread(1, &b[0], b.size(), cap_fd_pos);
        if (n > 0) s.append(b, 0, size_t(n));
    }
    return s;
}

// ---------------------------------------------------------------- one run in its own process
struct Outcome { int status; std::string cls, detail; uint64_t hash, points, switches; bool nontrivial; };
static std::string base_dir;
static int hang_s = 20;

static Outcome run_once(const Plan& p) {
    sh->status = 0; sh->cls[0] = sh->detail[0] = 0; sh->hash = 1; sh->points = sh->switches = 0; sh->nontrivial = 0;
    Outcome o;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "sim: fork: %s\n", strerror(errno)); exit(9); }
    if (pid == 0) {
        struct rlimit rl = {rlim_t(hang_s), rlim_t(hang_s + 2)};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit nc = {0, 0};
        setrlimit(RLIMIT_CORE, &nc);
        setpgid(0, 0);
        struct itimerval it = {{0, 0}, {180, 0}};
        setitimer(ITIMER_REAL, &it, 0);
        if (stdout_fd >= 0) { if (ftruncate(stdout_fd, 0)) {} lseek(stdout_fd, 0, SEEK_SET); dup2(stdout_fd, 1); }
        if (!trace_on) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); close(n); } }
        cap = new CaptureBuf;
        std::cout.rdbuf(cap);
        sched_cap(40000000);
        mem_run_start();
        disk_run_start(base_dir);
        rand_script(0, 0);
        load_switches(p);
        workload_exec(p);
        totals();
        _exit(0);
    }
    int st = 0;
    // a run that computes for too long gets SIGXCPU, one that is blocked for good SIGALRM
    for (;;) {
        pid_t w = waitpid(pid, &st, 0);
        if (w == pid) break;
        if (w < 0 && errno != EINTR) break;
    }
    kill(-pid, SIGKILL);
    o.status = sh->status;
    o.cls = sh->cls; o.detail = sh->detail; o.hash = sh->hash; o.points = sh->points; o.switches = sh->switches;
    o.nontrivial = sh->nontrivial != 0;
    if (o.status == 0) {
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            o.status = 1;
            o.cls = s == SIGXCPU || s == SIGKILL ? "hang" : s == SIGALRM ? "stuck" : "crash";
            o.detail = fmt("the run ended with signal %d (%s)", s, strsignal(s));
        } else if (WIFEXITED(st) && WEXITSTATUS(st) == 9) {
            fprintf(stderr, "sim: a run could not be set up\n");
            exit(9);
        } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) {
            o.status = 1; o.cls = "exit"; o.detail = fmt("the run ended with exit code %d", WEXITSTATUS(st));
        }
    }
    return o;
}

static std::string json_escape(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
        else r += char(c);
    }
    return r;
}

// ---------------------------------------------------------------- minimisation
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
static bool same(const Plan& p, const std::string& cls, int& tries) {
    ++tries;
    Outcome o = run_once(p);
    return o.status == 1 && o.cls == cls;
}
static Plan minimise(Plan p, const std::string& cls, double budget, int& tries) {
    const double end = now() + budget;
    size_t n = 2;
    while (p.lines.size() >= 2 && now() < end) {
        size_t len = p.lines.size(), chunk = std::max<size_t>(1, (len + n - 1) / n);
        bool reduced = false;
        for (size_t i = 0; i < len && now() < end; i += chunk) {
            Plan q;
            for (size_t j = 0; j < len; ++j) if (j < i || j >= i + chunk) q.lines.push_back(p.lines[j]);
            if (same(q, cls, tries)) { p = q; n = std::max<size_t>(2, n - 1); reduced = true; break; }
        }
        if (!reduced) { if (chunk == 1) break; n = std::min(n * 2, len); }
    }
    // smaller numbers
    for (int round = 0; round < 2 && now() < end; ++round)
        for (size_t i = 0; i < p.lines.size() && now() < end; ++i)
            for (size_t j = 0; j < p.lines[i].a.size() && now() < end; ++j) {
                const int64_t v = p.lines[i].a[j];
                const int64_t cand[] = {0, 1, v / 2, v - 1};
                for (int c = 0; c < 4; ++c) {
                    if (cand[c] == v || cand[c] < 0 || (v < 0) || cand[c] > v) continue;
                    Plan q = p;
                    q.lines[i].a[j] = cand[c];
                    if (same(q, cls, tries)) { p = q; break; }
                }
            }
    return p;
}

static int main_(int argc, char** argv) {
    std::string mode = argc > 1 ? argv[1] : "";
    sh = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (mode == "gen" && argc >= 4) {
        Rng r(strtoull(argv[2], 0, 10));
        Plan p;
        workload_gen(r, p, atoi(argv[3]));
        fputs(p.text().c_str(), stdout);
        return 0;
    }
    if (argc < 4) { fprintf(stderr, "usage: gen SEED TIER | exec PLAN SCRATCH [-v] | min PLAN SCRATCH CLASS OUT SECONDS | batch SCRATCH SEED0 STRIDE N WALL TIER OUT CPU [KNOWN..]\n"); return 2; }
    if (mode == "exec") {
        base_dir = argv[3];
        trace_on = argc > 4 && !strcmp(argv[4], "-v");
        stdout_fd = memfd_create("out", 0);
        std::ifstream f(argv[2]);
        std::stringstream ss; ss << f.rdbuf();
        Plan p; p.parse(ss.str());
        Outcome o = run_once(p);
        disk_real_cleanup(base_dir);
        printf("{\"status\": %d, \"class\": \"%s\", \"detail\": \"%s\", \"hash\": \"%016llx\", \"points\": %llu, \"switches\": %llu}\n",
               o.status, json_escape(o.cls).c_str(), json_escape(o.detail).c_str(), (unsigned long long)o.hash,
               (unsigned long long)o.points, (unsigned long long)o.switches);
        return o.status == 1 ? 3 : 0;
    }
    if (mode == "min" && argc >= 7) {
        base_dir = argv[3];
        stdout_fd = memfd_create("out", 0);
        std::ifstream f(argv[2]);
        std::stringstream ss; ss << f.rdbuf();
        Plan p; p.parse(ss.str());
        int tries = 0;
        hang_s = 5;
        if (!same(p, argv[4], tries)) return 4;
        p = minimise(p, argv[4], atof(argv[6]), tries);
        std::ofstream o(argv[5]);
        o << p.text();
        o.close();
        disk_real_cleanup(base_dir);
        printf("{\"lines\": %zu, \"tries\": %d}\n", p.lines.size(), tries);
        return 0;
    }
    if (mode == "batch" && argc >= 10) {
        base_dir = argv[2];
        const uint64_t seed0 = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), n = strtoull(argv[5], 0, 10);
        const double wall = atof(argv[6]);
        const int tier = atoi(argv[7]);
        const std::string out = argv[8];
        const int cpu = atoi(argv[9]);
        std::set<std::string> known;
        for (int i = 10; i < argc; ++i) known.insert(argv[i]);
        if (cpu >= 0) {
            cpu_set_t all; CPU_ZERO(&all);
            if (sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all) > 0) {
                int want = cpu % CPU_COUNT(&all), k = 0;
                cpu_set_t one; CPU_ZERO(&one);
                for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all)) { if (k++ == want) CPU_SET(c, &one); }
                sched_setaffinity(0, sizeof one, &one);
            }
        }
        stdout_fd = memfd_create("out", 0);
        const double t0 = now();
        uint64_t runs = 0, nontriv = 0, points = 0, switches = 0, viol = 0, knownhits = 0, rechecked = 0, mismatched = 0;
        std::vector<uint64_t> hashes;
        std::string vjson, samples;
        std::set<std::string> classes;
        for (uint64_t i = 0; i < n; ++i) {
            if (now() - t0 > wall) break;
            const uint64_t seed = seed0 + i * stride;
            Rng r(seed);
            Plan p;
            workload_gen(r, p, tier);
            Outcome o = run_once(p);
            ++runs; points += o.points; switches += o.switches;
            if (o.nontrivial) { ++nontriv; hashes.push_back(o.hash); }
            if (i % 64 == 5 || o.status == 1) {      // determinism: the same plan again
                Shared keep = *sh;
                Outcome q = run_once(p);
                *sh = keep;
                ++rechecked;
                if (q.hash != o.hash || q.status != o.status || q.cls != o.cls) { ++mismatched;
                    std::ofstream f((out + ".mismatch").c_str()); f << "# seed " << seed << "\n" << p.text(); }
            }
            if (i == 0 || (i == 17 && o.nontrivial)) {
                if (!samples.empty()) samples += ", ";
                std::string t = p.text();
                if (t.size() > 1500) t = t.substr(0, 1500) + "...";
                samples += fmt("{\"seed\": %llu, \"points\": %llu, \"switches\": %llu, \"plan\": \"", (unsigned long long)seed,
                               (unsigned long long)o.points, (unsigned long long)o.switches) + json_escape(t) + "\"}";
            }
            if (o.status == 1) {
                if (known.count(o.cls)) { ++knownhits; continue; }
                ++viol;
                if (!classes.count(o.cls) && classes.size() < 4) {
                    classes.insert(o.cls);
                    std::string pf = out + ".plan" + std::to_string(classes.size());
                    std::ofstream f(pf.c_str());
                    f << p.text();
                    if (!vjson.empty()) vjson += ", ";
                    vjson += "{\"class\": \"" + json_escape(o.cls) + "\", \"detail\": \"" + json_escape(o.detail) +
                             fmt("\", \"seed\": %llu, \"plan\": \"", (unsigned long long)seed) + json_escape(pf) + "\"}";
                }
                if (viol >= 3) break;
            }
        }
        disk_real_cleanup(base_dir);
        std::ofstream h((out + ".hash").c_str(), std::ios::binary);
        if (!hashes.empty()) h.write(reinterpret_cast<const char*>(hashes.data()), std::streamsize(hashes.size() * 8));
        std::ofstream f(out.c_str());
        f << "{\"runs\": " << runs << ", \"nontrivial\": " << nontriv << ", \"points\": " << points << ", \"switches\": " << switches
          << ", \"violations\": " << viol << ", \"known\": " << knownhits << ", \"rechecked\": " << rechecked << ", \"mismatched\": " << mismatched
          << ", \"wall\": " << (now() - t0) << ", \"rule\": \"" << json_escape(workload_rule) << "\", \"samples\": [" << samples << "], \"found\": [" << vjson << "], \"counters\": {";
        for (int i = 0; i < sh->ncounters; ++i)
            f << (i ? ", " : "") << "\"" << json_escape(sh->counters[i].name) << "\": " << sh->counters[i].n;
        f << "}}\n";
        return 0;
    }
    fprintf(stderr, "sim: bad arguments\n");
    return 2;
}
} // namespace sim

extern "C" {
int rand() { return sim::hooked_rand(); }
void srand(unsigned s) { sim::hooked_srand(s); }
long random() { return sim::hooked_rand(); }
void srandom(unsigned s) { sim::hooked_srand(s); }
long time(long* t) { long v = 1000000000l + long(sim::points()); if (t) *t = v; return v; }
long clock() { return long(sim::points()); }
}

int main(int argc, char** argv) {
    const unsigned long per = personality(0xffffffff);
    if (per != (unsigned long)-1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) {
        setenv("SIM_ASLR", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    return sim::main_(argc, argv);
}
