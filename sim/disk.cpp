// Disk seam: the C library's file calls, as made by libstdc++'s file streams (and by library code directly).
// Real files in a private scratch directory hold the simulated disk; calls made inside operations get the
// injected outcomes: short transfers, EINTR, errors at a byte position, failing open/close, process death.
#include "internal.hpp"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <algorithm>

namespace sim {
const char* const fault_names[F_KINDS] = {"none", "short_transfer", "eintr", "write_error", "read_error",
                                          "open_error", "close_error", "crash_at_byte", "crash_at_call", "write_error_once", "read_error_once"};
namespace {
std::string base, dir_;
bool made = false;
bool tracked[1024];
void* real(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) { fprintf(stderr, "sim: no symbol %s\n", n); _exit(9); }
    return p;
}
#define REAL(ret, name, args) static ret (*r) args = (ret (*) args)real(#name)
bool mine() { return self && self->in_op == 1; }
void fired(Thr* t, int f, uint64_t a, uint64_t b) {
    t->io.fired[f] = true;
    static const char* const names[F_KINDS] = {"", "fault.short_transfer", "fault.eintr", "fault.write_error",
        "fault.read_error", "fault.open_error", "fault.close_error", "fault.crash_at_byte", "fault.crash_at_call", "fault.write_error_once", "fault.read_error_once"};
    count(names[f]);
    event(names[f], a, b);
    if (trace_on) note(fmt("-- fault fires: %s (%lld, %lld)", fault_names[f], (long long)a, (long long)b));
}
[[noreturn]] void crash(Thr* t, int f, uint64_t a) {
    if (!t->io.in_crash_process) violate("internal", "crash fault outside a crashable process");
    fired(t, f, a, 0);
    _exit(77);
}
bool roll(const IoFault& f, int64_t n) {
    uint64_t h = mix(mix(0x51ed, uint64_t(f.b)), uint64_t(n));
    return int64_t(h % 100) < f.a;
}
// limits one transfer; returns -1 with errno set for an injected error
ssize_t limit(Thr* t, bool wr, size_t n) {
    IoState& io = t->io;
    const int64_t call = io.calls++;
    const int64_t dir_call = wr ? call : io.rcalls++;
    int64_t& done = wr ? io.written : io.read_;
    size_t m = n;
    for (size_t i = 0; i < io.faults.size(); ++i) {
        const IoFault& f = io.faults[i];
        if (f.type == F_EINTR && roll(f, dir_call) && !(roll(f, dir_call - 1) && roll(f, dir_call - 2))) {
            fired(t, F_EINTR, dir_call, 0);
            errno = EINTR;
            return -1;
        }
    }
    for (size_t i = 0; i < io.faults.size(); ++i) {
        IoFault& f = io.faults[i];
        if (f.type == (wr ? F_WRITE_ONCE : F_READ_ONCE) && f.a-- == 0) { fired(t, f.type, dir_call, f.b); errno = int(f.b); return -1; }
    }
    for (size_t i = 0; i < io.faults.size(); ++i) {
        const IoFault& f = io.faults[i];
        if (f.type == F_SHORT && f.a > 0 && m > 1) {
            size_t c = 1 + size_t(mix(mix(0x5407, uint64_t(f.b)), uint64_t(dir_call)) % uint64_t(f.a));
            if (c < m) { m = c; fired(t, F_SHORT, m, n); }
        }
    }
    for (size_t i = 0; i < io.faults.size(); ++i) {
        const IoFault& f = io.faults[i];
        if ((f.type == F_WRITE_ERR && wr) || (f.type == F_READ_ERR && !wr)) {
            if (done >= f.a) { fired(t, f.type, done, f.b); errno = int(f.b); return -1; }
            if (int64_t(m) > f.a - done) m = size_t(f.a - done);
        }
    }
    return ssize_t(m);
}
// number of bytes to write before dying, or -1
int64_t dies_after(Thr* t, size_t m) {
    for (size_t i = 0; i < t->io.faults.size(); ++i) {
        const IoFault& f = t->io.faults[i];
        if (f.type == F_CRASH_BYTE && t->io.written + int64_t(m) > f.a) return std::max<int64_t>(0, f.a - t->io.written);
    }
    return -1;
}
void call_point(Thr* t, const char* what) {
    point_slow(t, K_CALL);
    IoState& io = t->io;
    Quiet q;
    event(what);
    for (size_t i = 0; i < io.faults.size(); ++i)
        if (io.faults[i].type == F_CRASH_CALL && io.faults[i].a-- == 0) crash(t, F_CRASH_CALL, 0);
}
std::string absolute(const char* p) {
    std::string s = p && p[0] == '/' ? p : (dir_ + "/" + (p ? p : ""));
    std::vector<std::string> parts;
    size_t i = 0;
    while (i <= s.size()) {
        size_t j = s.find('/', i);
        if (j == std::string::npos) j = s.size();
        std::string c = s.substr(i, j - i);
        if (c == "..") { if (!parts.empty()) parts.pop_back(); }
        else if (!c.empty() && c != ".") parts.push_back(c);
        i = j + 1;
    }
    std::string r;
    for (size_t k = 0; k < parts.size(); ++k) r += "/" + parts[k];
    return r.empty() ? "/" : r;
}
void check_target(const char* path) {
    std::string a = absolute(path);
    if (made && a.compare(0, dir_.size() + 1, dir_ + "/") == 0) return;
    if (a == "/dev/null") return;
    violate("foreign-write", "a file outside the given directory was to be changed: " + a);
}
bool open_fault(Thr* t) {
    for (size_t i = 0; i < t->io.faults.size(); ++i) {
        IoFault& f = t->io.faults[i];
        if (f.type == F_OPEN_ERR && f.a-- == 0) { fired(t, F_OPEN_ERR, 0, f.b); errno = int(f.b); return true; }
    }
    return false;
}
bool close_fault(Thr* t) {
    for (size_t i = 0; i < t->io.faults.size(); ++i)
        if (t->io.faults[i].type == F_CLOSE_ERR) return true;
    return false;
}
void note_open(int fd) { if (fd >= 0 && fd < 1024) tracked[fd] = true; }
bool is_tracked(int fd) { return fd >= 0 && fd < 1024 && tracked[fd]; }

void rm_tree(const std::string& d) {
    if (d.compare(0, base.size(), base) != 0 || base.find("vmmlsim.") == std::string::npos) return;
    if (DIR* h = opendir(d.c_str())) {
        while (dirent* e = readdir(h)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p);
            else unlink(p.c_str());
        }
        closedir(h);
    }
    rmdir(d.c_str());
}
} // namespace

void disk_run_start(const std::string& b) { base = b; made = false; memset(tracked, 0, sizeof tracked); }
void disk_real_cleanup(const std::string& b) { base = b; Quiet q; rm_tree(b + "/d"); }

std::string scratch() {
    if (!made) {
        Quiet q;
        if (base.find("vmmlsim.") == std::string::npos) { fprintf(stderr, "sim: no scratch\n"); _exit(9); }
        dir_ = base + "/d";
        rm_tree(dir_);
        if (mkdir(dir_.c_str(), 0700) != 0 || chdir(dir_.c_str()) != 0) { fprintf(stderr, "sim: scratch %s\n", dir_.c_str()); _exit(9); }
        made = true;
    }
    return dir_;
}
void io_faults(const std::vector<IoFault>& f) {
    Quiet q;
    IoState& io = self->io;
    bool cp = io.in_crash_process;
    io = IoState();
    io.in_crash_process = cp;
    io.faults = f; io.armed = true;
}
void io_clear() { io_faults(std::vector<IoFault>()); }
bool io_fired(int t) { return self && self->io.fired[t]; }

std::string read_file(const std::string& p, bool* ok) {
    Quiet q;
    std::string s;
    struct stat st;
    FILE* f = stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode) ? fopen(p.c_str(), "rb") : 0;
    if (ok) *ok = f != 0;
    if (!f) return s;
    char b[8192]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
bool write_file(const std::string& p, const std::string& b) {
    Quiet q;
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) return false;
    bool ok = fwrite(b.data(), 1, b.size(), f) == b.size();
    return fclose(f) == 0 && ok;
}
static void list_into(const std::string& d, const std::string& pre, std::vector<std::string>& out) {
    if (DIR* h = opendir(d.c_str())) {
        while (dirent* e = readdir(h)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string p = d + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) list_into(p, pre + n + "/", out);
            else out.push_back(pre + n);
        }
        closedir(h);
    }
}
std::vector<std::string> list_files(const std::string& d) {
    Quiet q;
    std::vector<std::string> v;
    list_into(d, "", v);
    std::sort(v.begin(), v.end());
    return v;
}
uint64_t tree_hash(const std::string& d, const std::string& except) {
    std::vector<std::string> v = list_files(d);
    uint64_t h = 1;
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i] == except) continue;
        h = mix(h, hash_bytes(v[i].data(), v[i].size()));
        std::string c = read_file(d + "/" + v[i]);
        h = mix(h, hash_bytes(c.data(), c.size()));
    }
    return h;
}
int open_fds() {
    int n = 0;
    for (int fd = 0; fd < 128; ++fd) if (fcntl(fd, F_GETFD) != -1) ++n;
    return n;
}
bool in_process(void (*fn)(void*), void* arg) {
    Quiet q;
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "sim: fork failed\n"); _exit(9); }
    if (p == 0) {
        if (self) self->io.in_crash_process = true;
        fn(arg);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st));   // violation or invalid plan, already recorded
    if (WIFSIGNALED(st)) violate("crash", fmt("the operation ended with signal %d", WTERMSIG(st)));
    return false;
}
static pid_t twin = -1;
static int twin_fd = -1;
void twin_start(void (*fn)(void*), void* arg) {
    Quiet q;
    int fd[2];
    if (pipe(fd)) { fprintf(stderr, "sim: pipe failed\n"); _exit(9); }
    twin = fork();
    if (twin < 0) { fprintf(stderr, "sim: fork failed\n"); _exit(9); }
    if (twin == 0) {
        close(fd[1]);
        char c;
        ssize_t n;
        while ((n = ::read(fd[0], &c, 1)) < 0 && errno == EINTR) {}
        if (n != 1) _exit(0);
        fn(arg);
        _exit(0);
    }
    close(fd[0]);
    twin_fd = fd[1];
}
void twin_run() {
    Quiet q;
    char c = 1;
    if (::write(twin_fd, &c, 1) != 1) { fprintf(stderr, "sim: twin is gone\n"); _exit(9); }
    int st = 0;
    while (waitpid(twin, &st, 0) < 0 && errno == EINTR) {}
    close(twin_fd);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st)) _exit(WEXITSTATUS(st));
    if (WIFSIGNALED(st)) violate("crash", fmt("the operation ended with signal %d", WTERMSIG(st)));
}
void* shared_memory(size_t n) {
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "sim: no memory\n"); _exit(9); }
    return p;
}
} // namespace sim

using namespace sim;
extern "C" {
static ssize_t transfer_out(Thr* t, int fd, const char* p, size_t n, off_t at, const char* what);
static ssize_t transfer_in(Thr* t, int fd, char* p, size_t n, off_t at, const char* what);
// C streams opened by operations: glibc's own buffering over the simulated device
struct Cookie { FILE* shown; FILE* under; int fd; };
static Cookie cookies[64];
int fileno(FILE* f) {
    for (size_t i = 0; i < sizeof cookies / sizeof *cookies; ++i) if (f && cookies[i].shown == f) return cookies[i].fd;
    REAL(int, fileno, (FILE*));
    return r(f);
}
int fileno_unlocked(FILE* f) { return fileno(f); }
static ssize_t cookie_write(void* c, const char* p, size_t n) {
    Cookie* k = static_cast<Cookie*>(c);
    if (!mine()) { Quiet q; ssize_t w = write(k->fd, p, n); return w < 0 ? 0 : w; }
    size_t done = 0;
    while (done < n) {
        ssize_t w = transfer_out(self, k->fd, p + done, n - done, -1, "write");
        if (w < 0 && errno == EINTR) continue;       // as if restarted: glibc's C streams do not retry, libstdc++ does
        if (w < 0) break;
        done += size_t(w);
    }
    return ssize_t(done);
}
static ssize_t cookie_read(void* c, char* p, size_t n) {
    Cookie* k = static_cast<Cookie*>(c);
    if (!mine()) { Quiet q; return read(k->fd, p, n); }
    ssize_t g;
    do g = transfer_in(self, k->fd, p, n, -1, "read"); while (g < 0 && errno == EINTR);
    return g;
}
static int cookie_seek(void* c, off64_t* o, int whence) {
    off64_t r = lseek64(static_cast<Cookie*>(c)->fd, *o, whence);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int cookie_close(void* c) {
    REAL(int, fclose, (FILE*));
    Cookie* k = static_cast<Cookie*>(c);
    Quiet q;
    if (k->fd >= 0 && k->fd < 1024) tracked[k->fd] = false;
    int e = r(k->under);
    k->shown = k->under = 0;
    return e;
}
static FILE* wrapped(FILE* f, const char* mode) {
    for (size_t i = 0; i < sizeof cookies / sizeof *cookies; ++i)
        if (!cookies[i].under) {
            cookie_io_functions_t io = {cookie_read, cookie_write, cookie_seek, cookie_close};
            cookies[i].under = f; cookies[i].fd = fileno(f);
            cookies[i].shown = fopencookie(&cookies[i], mode, io);
            if (!cookies[i].shown) { cookies[i].under = 0; return f; }
            return cookies[i].shown;
        }
    return f;
}
static FILE* hooked_fopen(const char* which, const char* path, const char* mode) {
    typedef FILE* (*fn)(const char*, const char*);
    fn r = (fn)real(which);
    if (!mine()) return r(path, mode);
    Thr* t = self;
    call_point(t, "fopen");
    Quiet q;
    if (trace_on) note(fmt("   open %s mode %s", path, mode));
    if (open_fault(t)) return 0;
    if (strpbrk(mode, "wa+")) check_target(path);
    FILE* f = r(path, mode);
    if (!f) return 0;
    note_open(fileno(f));
    return wrapped(f, mode);
}
FILE* fopen(const char* p, const char* m) { return hooked_fopen("fopen", p, m); }
FILE* fopen64(const char* p, const char* m) { return hooked_fopen("fopen64", p, m); }

static int hooked_open(const char* which, int dfd, const char* path, int flags, mode_t mode) {
    typedef int (*fn)(int, const char*, int, mode_t);
    static fn r = (fn)real("openat");
    (void)which;
    if (!mine()) return r(dfd, path, flags, mode);
    Thr* t = self;
    call_point(t, "open");
    Quiet q;
    if (trace_on) note(fmt("   open %s flags %x", path, flags));
    if (open_fault(t)) return -1;
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) check_target(path);
    int fd = r(dfd, path, flags, mode);
    note_open(fd);
    return fd;
}
#define MODE va_list ap; va_start(ap, flags); mode_t mode = (flags & O_CREAT) ? va_arg(ap, mode_t) : 0; va_end(ap)
int open(const char* p, int flags, ...) { MODE; return hooked_open("open", AT_FDCWD, p, flags, mode); }
int open64(const char* p, int flags, ...) { MODE; return hooked_open("open64", AT_FDCWD, p, flags, mode); }
int openat(int d, const char* p, int flags, ...) { MODE; return hooked_open("openat", d, p, flags, mode); }
FILE* fdopen(int fd, const char* mode) {
    REAL(FILE*, fdopen, (int, const char*));
    FILE* f = r(fd, mode);
    if (!f || !mine() || !is_tracked(fd)) return f;
    Quiet q;
    return wrapped(f, mode);
}
int openat64(int d, const char* p, int flags, ...) { MODE; return hooked_open("openat64", d, p, flags, mode); }
int creat(const char* p, mode_t m) { return hooked_open("creat", AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int fclose(FILE* f) {
    REAL(int, fclose, (FILE*));
    if (!mine()) return r(f);
    Thr* t = self;
    int fd = fileno(f);
    call_point(t, "fclose");
    bool trk = is_tracked(fd);
    int e = r(f);                                   // flushes a C stream's buffer first
    if (trk) tracked[fd] = false;
    if (trk && close_fault(t)) { Quiet q; fired(t, F_CLOSE_ERR, 0, 0); errno = EIO; return EOF; }
    return e;
}
int close(int fd) {
    REAL(int, close, (int));
    if (!mine()) return r(fd);
    Thr* t = self;
    call_point(t, "close");
    bool trk = is_tracked(fd);
    if (trk) tracked[fd] = false;
    int e = r(fd);
    if (trk && close_fault(t)) { Quiet q; fired(t, F_CLOSE_ERR, 0, 0); errno = EIO; return -1; }
    return e;
}
static ssize_t transfer_out(Thr* t, int fd, const char* p, size_t n, off_t at, const char* what) {
    typedef ssize_t (*wfn)(int, const void*, size_t);
    typedef ssize_t (*pfn)(int, const void*, size_t, off_t);
    static wfn w = (wfn)real("write");
    static pfn pw = (pfn)real("pwrite");
    call_point(t, what);
    Quiet q;
    ssize_t m = limit(t, true, n);
    if (m < 0) { int e = errno; if (trace_on) note(fmt("   %s(%zu) -> error %d", what, n, e)); errno = e; return -1; }
    int64_t die = dies_after(t, size_t(m));
    if (die >= 0) m = ssize_t(die);
    ssize_t k = m == 0 ? 0 : at >= 0 ? pw(fd, p, size_t(m), at) : w(fd, p, size_t(m));
    if (k > 0) t->io.written += k;
    if (die >= 0) crash(t, F_CRASH_BYTE, uint64_t(t->io.written));
    if (trace_on) note(fmt("   %s(%zu) -> %zd", what, n, k));
    event("out", n, uint64_t(k));
    return k;
}
ssize_t write(int fd, const void* p, size_t n) {
    REAL(ssize_t, write, (int, const void*, size_t));
    if (!mine() || !is_tracked(fd)) return r(fd, p, n);
    return transfer_out(self, fd, static_cast<const char*>(p), n, -1, "write");
}
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) {
    REAL(ssize_t, pwrite, (int, const void*, size_t, off_t));
    if (!mine() || !is_tracked(fd)) return r(fd, p, n, o);
    return transfer_out(self, fd, static_cast<const char*>(p), n, o, "pwrite");
}
ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) { return pwrite(fd, p, n, o); }
ssize_t writev(int fd, const struct iovec* v, int n) {
    REAL(ssize_t, writev, (int, const struct iovec*, int));
    if (!mine() || !is_tracked(fd)) return r(fd, v, n);
    std::string* all;
    { Quiet q; all = new std::string; for (int i = 0; i < n; ++i) all->append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); }
    ssize_t k = transfer_out(self, fd, all->data(), all->size(), -1, "writev");
    int e = errno;
    { Quiet q; delete all; }
    errno = e;
    return k;
}
static ssize_t transfer_in(Thr* t, int fd, char* p, size_t n, off_t at, const char* what) {
    typedef ssize_t (*rfn)(int, void*, size_t);
    typedef ssize_t (*pfn)(int, void*, size_t, off_t);
    static rfn rd = (rfn)real("read");
    static pfn pr = (pfn)real("pread");
    call_point(t, what);
    Quiet q;
    ssize_t m = limit(t, false, n);
    if (m < 0) { int e = errno; if (trace_on) note(fmt("   %s(%zu) -> error %d", what, n, e)); errno = e; return -1; }
    // an error at byte b strikes where the data there is asked for; m is 0 only if n was
    ssize_t k = at >= 0 ? pr(fd, p, size_t(m), at) : rd(fd, p, size_t(m));
    if (k > 0) t->io.read_ += k;
    if (trace_on) note(fmt("   %s(%zu) -> %zd", what, n, k));
    event("in", n, uint64_t(k));
    return k;
}
ssize_t read(int fd, void* p, size_t n) {
    REAL(ssize_t, read, (int, void*, size_t));
    if (!mine() || !is_tracked(fd)) return r(fd, p, n);
    return transfer_in(self, fd, static_cast<char*>(p), n, -1, "read");
}
ssize_t pread(int fd, void* p, size_t n, off_t o) {
    REAL(ssize_t, pread, (int, void*, size_t, off_t));
    if (!mine() || !is_tracked(fd)) return r(fd, p, n, o);
    return transfer_in(self, fd, static_cast<char*>(p), n, o, "pread");
}
ssize_t pread64(int fd, void* p, size_t n, off_t o) { return pread(fd, p, n, o); }
ssize_t readv(int fd, const struct iovec* v, int n) {
    REAL(ssize_t, readv, (int, const struct iovec*, int));
    if (!mine() || !is_tracked(fd)) return r(fd, v, n);
    // one element per call: a short transfer
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return transfer_in(self, fd, static_cast<char*>(v[i].iov_base), v[i].iov_len, -1, "readv");
    return 0;
}
#define PATH1(name) \
    int name(const char* p) { REAL(int, name, (const char*)); \
        if (mine()) { call_point(self, #name); Quiet q; check_target(p); return r(p); } return r(p); }
PATH1(unlink) PATH1(remove) PATH1(rmdir)
#define PATH2(name) \
    int name(const char* p, const char* o) { REAL(int, name, (const char*, const char*)); \
        if (mine()) { call_point(self, #name); Quiet q; check_target(p); check_target(o); return r(p, o); } return r(p, o); }
PATH2(rename) PATH2(link)
int symlink(const char* p, const char* o) { REAL(int, symlink, (const char*, const char*));
    if (mine()) { call_point(self, "symlink"); Quiet q; check_target(o); } return r(p, o); }
int mkdir(const char* p, mode_t m) { REAL(int, mkdir, (const char*, mode_t));
    if (mine()) { call_point(self, "mkdir"); Quiet q; check_target(p); } return r(p, m); }
int truncate(const char* p, off_t n) { REAL(int, truncate, (const char*, off_t));
    if (mine()) { call_point(self, "truncate"); Quiet q; check_target(p); } return r(p, n); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, (int, off_t)); if (mine()) call_point(self, "ftruncate"); return r(fd, n); }
int fsync(int fd) { if (mine()) call_point(self, "fsync"); (void)fd; return 0; }
int fdatasync(int fd) { if (mine()) call_point(self, "fdatasync"); (void)fd; return 0; }
int system(const char* c) { if (mine()) violate("foreign-write", std::string("shell command: ") + c); REAL(int, system, (const char*)); return r(c); }
}
