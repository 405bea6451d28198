// C01 raw round trip, C02 failing raw reads, C03 failing and interrupted raw writes, C04 CSV export.
// The real vmmlib code runs on libstdc++'s real file streams; the simulated device sits at the system calls.
#include <cstdint>
#include <vmmlib/matrix.hpp>
#include "sim.hpp"
#include <cerrno>
#include <cmath>
#include <unistd.h>
#include <sys/stat.h>
#include <iomanip>
#include <map>
#include <memory>
#include <typeinfo>
using namespace sim;

namespace {
// ---------------------------------------------------------------- matrices of many types behind one interface
struct Any {
    virtual ~Any() {}
    virtual size_t bytes() const = 0;
    virtual char* data() = 0;
    virtual size_t rows() const = 0;
    virtual size_t cols() const = 0;
    virtual void write_raw(const std::string& d, const std::string& n) const = 0;
    virtual void read_raw(const std::string& d, const std::string& n) = 0;
    virtual void write_csv(const std::string& d, const std::string& n) const = 0;
    virtual std::string text(size_t r, size_t c) const = 0;   // five significant digits
    virtual size_t elem() const = 0;
    virtual bool numeric() const = 0;
    virtual bool wide() const = 0;                            // 80-bit floats: ten bytes of sixteen carry the value
    std::string image() { return canon(std::string(data(), bytes())); }
    // what of these bytes carries values of this matrix' type
    std::string canon(std::string b) const {
        if (wide()) for (size_t i = 0; i < b.size(); ++i) if (i % 16 >= 10) b[i] = 0;
        return b;
    }
};
template <class T> struct is_long_double { static const bool v = false; };
template <> struct is_long_double<long double> { static const bool v = true; };
template <class T> struct is_char { static const bool v = sizeof(T) == 1; };
template <size_t M, size_t N, class T> struct Box : Any {
    typedef vmml::Matrix<M, N, T> Mat;
    Mat* m;
    Box() : m(new Mat) {}
    ~Box() { delete m; }
    size_t bytes() const { return sizeof(T) * M * N; }
    char* data() { return reinterpret_cast<char*>(m->array); }
    size_t rows() const { return M; }
    size_t cols() const { return N; }
    size_t elem() const { return sizeof(T); }
    bool numeric() const { return !is_char<T>::v; }
    bool wide() const { return is_long_double<T>::v; }
    void write_raw(const std::string& d, const std::string& n) const { static_cast<const Mat*>(m)->write_to_raw(d, n); }
    void read_raw(const std::string& d, const std::string& n) { m->read_from_raw(d, n); }
    void write_csv(const std::string& d, const std::string& n) const { static_cast<const Mat*>(m)->write_csv_file(d, n); }
    std::string text(size_t r, size_t c) const {
        std::ostringstream os;
        os << std::setprecision(5) << m->array[c * M + r];
        return os.str();
    }
};
enum { TYPES = 29, GIANT = 28 };
Any* make(int64_t t) {
    switch (((t % TYPES) + TYPES) % TYPES) {
        case 0: return new Box<1, 1, float>;
        case 1: return new Box<2, 2, double>;
        case 2: return new Box<3, 4, float>;
        case 3: return new Box<4, 4, float>;
        case 4: return new Box<4, 4, double>;
        case 5: return new Box<3, 3, int>;
        case 6: return new Box<5, 7, uint8_t>;
        case 7: return new Box<2, 3, short>;
        case 8: return new Box<1, 9, long long>;
        case 9: return new Box<7, 1, double>;
        case 10: return new Box<33, 65, double>;
        case 11: return new Box<64, 64, float>;
        case 12: return new Box<91, 90, float>;
        case 13: return new Box<4, 4, unsigned>;
        case 15: return new Box<401, 400, double>;
        case 16: return new Box<3, 2, unsigned short>;
        case 17: return new Box<4, 4, unsigned long>;
        case 18: return new Box<16, 16, float>;
        case 19: return new Box<32, 32, double>;
        case 20: return new Box<128, 64, double>;
        case 21: return new Box<1, 2, float>;
        case 22: return new Box<9, 5, double>;
        case 23: return new Box<6, 6, float>;
        case 24: return new Box<1, 1024, short>;
        case 25: return new Box<8, 8, int>;
        case 26: return new Box<3, 3, long double>;
        case 27: return new Box<23, 24, long double>;
        case 28: return new Box<2099, 2001, float>;          // more than sixteen megabytes
        default: return new Box<200, 201, double>;
    }
}
int64_t pick_type(Rng& r) {
    int64_t x = r.below(100);
    if (x < 60) return r.below(10);
    if (x < 80) return r.pick({13, 26, 16, 17, 18, 21, 22, 23, 25, 27});
    if (x < 97) return r.pick({10, 11, 12, 19, 20, 24});
    return r.chance(20) ? 15 : 14;
}
// values: bit patterns of every kind, all different between fills
void fill(Any& a, int64_t seed) {
    Rng r(uint64_t(seed) * 31 + 7);
    const int style = int(r.below(4));
    char* p = a.data();
    const size_t e = a.elem(), n = a.bytes() / e;
    for (size_t i = 0; i < n; ++i) {
        uint64_t v = r.next();
        if (e == 4 && style < 2) { float f = float(r.range(-99999, 99999)) * (style ? 0.37f : 1.f); uint32_t b; memcpy(&b, &f, 4); v = b; }
        if (e == 8 && style < 2) { double f = double(r.range(-99999, 99999)) * (style ? 0.37 : 1.); memcpy(&v, &f, 8); }
        if (style == 2 && r.chance(50)) {
            static const uint32_t f4[] = {0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00001u, 0x7f800001u, 1u, 0u, 0x7f7fffffu, 0x0a0d0a0du, 0x1a1a1a1au};
            static const uint64_t f8[] = {0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000123ull,
                                          0x7ff0000000000001ull, 1ull, 0ull, 0x7fefffffffffffffull, 0x0a0d0a0d0a0d0a0dull, 0x1a00000000000000ull};
            v = e == 8 ? f8[r.below(10)] : f4[r.below(10)];
        }
        if (a.wide()) {
            const long double w = std::ldexp((long double)(v | 1ull << 63), style == 2 ? int(r.range(-16000, 16000)) : int(r.range(-70, -40)));
            memset(p + i * e, 0, e);
            memcpy(p + i * e, &w, 10);
            if (r.chance(50)) p[i * e + 9] ^= char(0x80);
            continue;
        }
        memcpy(p + i * e, &v, e);
    }
}

// ---------------------------------------------------------------- names
enum { DIRS = 15, NAMES = 30, NO_DIR = 14 };
int64_t wrap(int64_t v, int64_t n) { return ((v % n) + n) % n; }
std::string many(const char* s, int n) { std::string r; while (n-- > 0) r += s; return r; }
std::string dir_of(int64_t d) {
    switch (wrap(d, DIRS)) {
        case 0: return scratch();
        case 1: return scratch() + "/";
        case 2: return "";
        case 3: return "sub";
        case 4: return "sub/";
        case 5: return scratch() + "/sub/deep";
        case 6: return "./sub/deep/";
        case 7: return ".";
        case 8: return "sub/../sub/deep";
        case 9: return "sub//";
        case 10: return many("./", 170) + "sub";               // longer than any buffer of 256 characters
        case 11: return scratch() + "/sub" + many("/../sub", 90) + "/";
        case 12: return "m.raw.csv";
        case 13: return "%s 100%%d";
        default: return "none";                                // does not exist
    }
}
std::string dir_canon(int64_t d) {   // relative to scratch, with trailing separator unless empty
    switch (wrap(d, DIRS)) {
        case 0: case 1: case 2: case 7: return "";
        case 3: case 4: case 9: case 10: case 11: return "sub/";
        case 12: return "m.raw.csv/";
        case 13: return "%s 100%%d/";
        case NO_DIR: return "none/";
        default: return "sub/deep/";
    }
}
std::string name_of(int64_t n, bool csv) {
    static const char* const raw[] = {"a", "m.raw", "raw", "mraw", "raw.bin", "x.ra", "w", "b.csv", "long_name_with_.raw_inside", "m.raw.raw", "aw", "a name",
                                      "", ".", "m.RAW", "rawr", "m.raw2", "part/p", "part/q.raw", "isdir", "isdir.raw"};
    static const char* const csvn[] = {"a", "m.csv", "csv", "mcsv", "csv.bin", "x.cs", "v", "b.raw", "long_name_with_.csv_inside", "m.csv.csv", "sv", "a name",
                                       "", ".", "m.CSV", "csvc", "m.csv2", "part/p", "part/q.csv", "isdir", "isdir.csv"};
    n = wrap(n, NAMES);
    if (n == 21) return many("long", 50);
    if (n == 22) return many("name", 62) + (csv ? ".csv" : ".raw");
    if (n == 23) return many("too_long_for_a_file_", 20);
    static const char* const odd[] = {"100%%", "%s%d%n", "Gr\xc3\xb6\xc3\x9f" "e~", "a\\b*?", "new\nline", "-x "};
    if (n >= 24) return odd[n - 24];
    return csv ? csvn[n] : raw[n];
}
// no file can be made under this name
bool impossible(int64_t d, int64_t n) {
    n = wrap(n, NAMES);
    return wrap(d, DIRS) == NO_DIR || n == 19 || n == 20 || n == 23;
}
std::string stored_name(const std::string& n, bool csv) {
    const std::string suf = csv ? "csv" : "raw";
    if (n.size() >= 3 && n.compare(n.size() - 3, 3, suf) == 0) return n;
    return n + "." + suf;
}

// ---------------------------------------------------------------- the run
typedef std::map<std::string, std::string> Tree;      // model of the disk: relative path -> bytes
struct Run {
    const Plan* plan;
    Tree disk;
    int fds;
};
std::vector<IoFault> faults_of(const Plan& p, int64_t id) {
    std::vector<IoFault> v;
    for (size_t i = 0; i < p.lines.size(); ++i)
        if (p.lines[i].k == "fault" && p.lines[i].arg(0) == id) {
            IoFault f = {int(p.lines[i].arg(1)), p.lines[i].arg(2), p.lines[i].arg(3)};
            if (f.type > 0 && f.type < F_KINDS) v.push_back(f);
        }
    return v;
}
int64_t nomem_of(const Plan& p, int64_t id) {      // nomem id k: the k-th memory request of that operation fails
    for (size_t i = 0; i < p.lines.size(); ++i) if (p.lines[i].k == "nomem" && p.lines[i].arg(0) == id) return std::max<int64_t>(0, p.lines[i].arg(1));
    return -1;
}
// edit id element: that element of the operation's matrix has another value than its seed gives
void edit(const Plan& p, int64_t id, Any& a) {
    const size_t e = a.elem(), n = a.bytes() / e;
    for (size_t i = 0; i < p.lines.size(); ++i)
        if (p.lines[i].k == "edit" && p.lines[i].arg(0) == id) {
            const uint64_t k = uint64_t(p.lines[i].arg(1));
            a.data()[(k / 4 % n) * e + (k & 3) % e] ^= char(1 << (k >> 2) % 8);     // the low bytes: mantissa
        }
}
bool has(const std::vector<IoFault>& f, int t) { for (size_t i = 0; i < f.size(); ++i) if (f[i].type == t) return true; return false; }

std::string show(const std::string& s) { return fmt("%zu bytes %s", s.size(), hex(s.data(), s.size()).c_str()); }

// every file but the one named holds what the model says
void check_tree(Run& R, const std::string& target, bool extra_ok, const char* what) {
    std::vector<std::string> have = list_files(scratch());
    Tree seen;
    for (size_t i = 0; i < have.size(); ++i) {
        if (have[i] == target) continue;
        Tree::const_iterator m = R.disk.find(have[i]);
        if (m == R.disk.end()) {
            if (extra_ok) continue;
            violate("other-file", fmt("%s created another file: %s (target %s)", what, have[i].c_str(), target.c_str()));
        }
        seen[have[i]];
        if (read_file(scratch() + "/" + have[i]) != m->second)
            violate("other-file", fmt("%s changed another file: %s (target %s)", what, have[i].c_str(), target.c_str()));
    }
    for (Tree::const_iterator m = R.disk.begin(); m != R.disk.end(); ++m)
        if (m->first != target && !seen.count(m->first))
            violate("other-file", fmt("%s removed another file: %s", what, m->first.c_str()));
}
// calls the library and reports what must never happen in any of these calls
struct Call { bool threw, nomem; std::string out; };        // nomem: a memory request failed
template <class F> Call call(Run& R, int64_t id, const char* what, F f, int64_t nomem = -1) {
    Call c;
    c.threw = c.nomem = false;
    bool bad_alloc = false;
    cout_clear();
    op_alloc_reset();
    const int fds = open_fds();
    const std::ios_base::fmtflags flags = std::cout.flags();
    const std::streamsize precision = std::cout.precision(), width = std::cout.width();
    std::string ex;
    {
        fail_alloc(nomem);
        OpScope op((int)id);
        try { f(); }
        catch (const std::bad_alloc& e) { op.end(); c.threw = bad_alloc = true; ex = e.what(); }
        catch (const std::exception& e) { op.end(); c.threw = true; ex = e.what(); }
        catch (...) { op.end(); c.threw = true; ex = "unknown"; }
    }
    c.nomem = nomem >= 0 && alloc_failed();
    fail_alloc(-1);
    if (c.nomem) count("fault.no_memory");
    c.out = cout_text();
    if (c.threw && !(c.nomem && bad_alloc)) violate("exception", fmt("%s threw %s", what, ex.c_str()));
    if (open_fds() != fds) violate("descriptor-kept", fmt("%s changed the number of open descriptors from %d to %d", what, fds, open_fds()));
    if (op_outstanding() != 0) violate("memory-kept", fmt("%s left %lld allocations behind", what, (long long)op_outstanding()));
    if (std::cout.flags() != flags || std::cout.precision() != precision || std::cout.width() != width || !std::cout.good())
        violate("output-state", fmt("%s left standard output in another state", what));
    event(what, uint64_t(id), c.out.empty());
    return c;
}

struct WriteArgs { Any* m; std::string dir, name; bool csv; int64_t id; Run* R; };
void do_write(void* p) {
    WriteArgs& a = *static_cast<WriteArgs*>(p);
    OpScope op((int)a.id);
    if (a.csv) a.m->write_csv(a.dir, a.name); else a.m->write_raw(a.dir, a.name);
}

// the semantic content of a CSV export: one line per row, one number per column
void check_csv(Any& m, const std::string& bytes, const std::string& path) {
    std::vector<std::vector<std::string> > rows;
    std::istringstream is(bytes);
    std::string line;
    while (std::getline(is, line)) {
        std::vector<std::string> toks;
        std::string cur;
        for (size_t i = 0; i <= line.size(); ++i) {
            char c = i < line.size() ? line[i] : ' ';
            if (strchr(" \t\r|,;", c)) { if (!cur.empty()) toks.push_back(cur); cur.clear(); }
            else cur += c;
        }
        if (!toks.empty()) rows.push_back(toks);
    }
    if (rows.size() != m.rows()) violate("csv-shape", fmt("%s has %zu lines for %zu rows", path.c_str(), rows.size(), m.rows()));
    for (size_t r = 0; r < m.rows(); ++r) {
        if (rows[r].size() != m.cols()) violate("csv-shape", fmt("%s line %zu has %zu numbers for %zu columns", path.c_str(), r, rows[r].size(), m.cols()));
        for (size_t c = 0; c < m.cols(); ++c)
            if (rows[r][c] != m.text(r, c))
                violate("csv-value", fmt("%s row %zu column %zu: \"%s\" for \"%s\"", path.c_str(), r, c, rows[r][c].c_str(), m.text(r, c).c_str()));
    }
}

void write_op(Run& R, const Line& l, bool csv) {
    // w id type value dir name
    const int64_t id = l.arg(0);
    const bool hopeless = impossible(l.arg(3), l.arg(4));
    if (hopeless) count("fault.no_such_place");
    std::unique_ptr<Any> m(make(l.arg(1)));
    if (csv && !m->numeric()) m.reset(make(4));
    fill(*m, l.arg(2));
    edit(*R.plan, id, *m);
    const std::string dir = dir_of(l.arg(3)), name = name_of(l.arg(4), csv);
    const std::string path = dir_canon(l.arg(3)) + stored_name(name, csv);
    const std::string image = m->image();
    const bool had = R.disk.count(path) != 0;
    const std::string old = had ? R.disk[path] : std::string();
    std::string want = image;
    auto value = [&m, csv](const std::string& b) { return csv ? b : m->canon(b); };
    if (csv) {           // the complete text, written without faults to a file of its own
        std::vector<IoFault> none;
        io_faults(none);
        Any* pm = m.get();
        call(R, id, "write_csv_file (reference)", [pm] { pm->write_csv("", "reference.csv"); });
        bool rok = false;
        want = read_file(scratch() + "/reference.csv", &rok);
        if (!rok) violate("file-missing", "a CSV export without faults produced no file reference.csv");
        Tree t0 = R.disk;
        check_csv(*m, want, "reference.csv");
        remove((scratch() + "/reference.csv").c_str());
    }
    std::vector<IoFault> fs = faults_of(*R.plan, id);
    note(fmt("op %lld: write %s %zux%zu (%zu bytes, values %lld) dir \"%s\" name \"%s\"%s", (long long)id, csv ? "csv" : "raw", m->rows(), m->cols(),
             m->bytes(), (long long)l.arg(2), dir.c_str(), name.c_str(), had ? " over an existing file" : ""));
    const std::string full = scratch() + "/" + path;
    const char* what = csv ? "write_csv_file" : "write_to_raw";
    bool exists = false;
    if (has(fs, F_CRASH_BYTE) || has(fs, F_CRASH_CALL)) {
        io_faults(fs);
        WriteArgs a = {m.get(), dir, name, csv, id, &R};
        const bool died = in_process(do_write, &a);
        count(died ? "op.write_crashed" : "op.write_survived_crash_fault");
        event("crashed", died);
        if (died) note("-- the process died; restart");
        const std::string now = read_file(full, &exists);
        check_tree(R, path, died, what);
        if (!died && !hopeless && !has(fs, F_WRITE_ERR) && !has(fs, F_WRITE_ONCE) && !has(fs, F_OPEN_ERR) && (!exists || value(now) != want))
            violate("incomplete", fmt("%s to %s returned with %s for %s", what, path.c_str(), show(now).c_str(), show(want).c_str()));
        if (csv && exists && !(had && now == old) && now.size() <= want.size() ? want.compare(0, now.size(), now) != 0 : csv && exists && !(had && now == old))
            violate("not-a-prefix", fmt("after a crash in %s, %s is no prefix of the export: %s", what, path.c_str(), show(now).c_str()));
        // files a careful writer may have left behind
        std::vector<std::string> have = list_files(scratch());
        for (size_t i = 0; i < have.size(); ++i)
            if (have[i] != path && !R.disk.count(have[i])) remove((scratch() + "/" + have[i]).c_str());
        if (exists) R.disk[path] = now; else R.disk.erase(path);
    } else {
        io_faults(fs);
        Any* pm = m.get();
        Call c = call(R, id, what, [pm, &dir, &name, csv] { if (csv) pm->write_csv(dir, name); else pm->write_raw(dir, name); }, nomem_of(*R.plan, id));
        const bool ioerr = hopeless || c.nomem || io_fired(F_WRITE_ERR) || io_fired(F_WRITE_ONCE) || io_fired(F_OPEN_ERR) || io_fired(F_CLOSE_ERR);
        const std::string now = read_file(full, &exists);
        check_tree(R, path, ioerr, what);
        if (!ioerr) {
            if (!exists) violate("file-missing", fmt("%s(\"%s\", \"%s\") produced no file %s", what, dir.c_str(), name.c_str(), path.c_str()));
            if (value(now) != want) violate("file-content", fmt("%s to %s: %s instead of %s", what, path.c_str(), show(now).c_str(), show(want).c_str()));
            if (!c.out.empty()) violate("false-report", fmt("%s to %s succeeded but says \"%s\"", what, path.c_str(), c.out.c_str()));
        } else {
            count(value(now) == want && exists ? "op.write_error_but_complete" : "op.write_failed");
            const bool overcome = exists && value(now) == want && !io_fired(F_WRITE_ERR) && !io_fired(F_OPEN_ERR) && !io_fired(F_CLOSE_ERR);
            if (c.out.empty() && !overcome && !c.threw)
                violate("silent-failure", fmt("%s to %s failed (%s%s%s) without a message; the file holds %zu of %zu bytes", what, path.c_str(),
                        io_fired(F_OPEN_ERR) ? "open " : "", io_fired(F_WRITE_ERR) || io_fired(F_WRITE_ONCE) ? "write " : "", io_fired(F_CLOSE_ERR) ? "close" : "", now.size(), want.size()));
            if (csv && exists && !(had && now == old) && (now.size() > want.size() || want.compare(0, now.size(), now) != 0))
                violate("not-a-prefix", fmt("after a failed %s, %s is no prefix of the export: %s", what, path.c_str(), show(now).c_str()));
            std::vector<std::string> have = list_files(scratch());
            for (size_t i = 0; i < have.size(); ++i)
                if (have[i] != path && !R.disk.count(have[i])) remove((scratch() + "/" + have[i]).c_str());
        }
        if (exists) R.disk[path] = now; else R.disk.erase(path);
    }
    if (m->image() != image) violate("matrix-changed", fmt("%s changed the matrix it writes", what));
    event("wrote", hash_bytes(want.data(), want.size()));
    if (had) count(old.size() > want.size() ? "op.write_over_longer" : "op.write_over_existing");

    // after a fault: what a reader of the same type gets
    if ((!fs.empty() || nomem_of(*R.plan, id) >= 0) && !csv) {
        io_clear();
        std::unique_ptr<Any> t(make(l.arg(1)));
        fill(*t, l.arg(2) + 1000003);
        const std::string before = t->image();
        const std::string rname = stored_name(name, false);
        Any* pt = t.get();
        Call c = call(R, id, "read_from_raw", [pt, &dir, &rname] { pt->read_raw(dir, rname); });
        const std::string got = t->image();
        const bool is_new = got == image, is_old = had && old.size() >= got.size() && m->canon(old).compare(0, got.size(), got) == 0;
        const bool rejected = got == before && !c.out.empty();
        if (!is_new && !is_old && !rejected)
            violate("passes-for-good", fmt("after an interrupted %s the file reads as neither old nor new: read %s; new %s; old %s; file %s", what,
                    show(got).c_str(), show(image).c_str(), had ? show(old).c_str() : "none", show(R.disk.count(path) ? R.disk[path] : "").c_str()));
        count(is_new ? "op.reads_new" : is_old ? "op.reads_old" : "op.reads_rejected");
        check_tree(R, "", false, "read_from_raw");
    }
    if (l.arg(5) && !hopeless) {       // the fault is gone: repeating must succeed
        io_clear();
        Any* pm = m.get();
        call(R, id, what, [pm, &dir, &name, csv] { if (csv) pm->write_csv(dir, name); else pm->write_raw(dir, name); });
        const std::string now = read_file(full, &exists);
        if (!exists || value(now) != want) violate("no-recovery", fmt("repeating %s to %s without faults left %s instead of %s", what, path.c_str(), show(now).c_str(), show(want).c_str()));
        R.disk[path] = now;
        check_tree(R, path, false, what);
        count("op.repeated_write");
    }
}

void read_op(Run& R, const Line& l) {
    // r id type value dir name exact
    const int64_t id = l.arg(0);
    std::unique_ptr<Any> t(make(l.arg(1)));
    fill(*t, l.arg(2));
    const std::string dir = dir_of(l.arg(3));
    std::string name = stored_name(name_of(l.arg(4), false), false);
    std::string rel = dir_canon(l.arg(3)) + name;
    if (l.arg(5) == 1) {               // name a directory instead of a file
        name = dir_canon(l.arg(3)).empty() ? "sub" : ".";
        rel = "";
    }
    const std::string before = t->image();
    const bool exists = R.disk.count(rel) != 0;
    const std::string bytes = exists ? R.disk[rel] : std::string();
    std::vector<IoFault> fs = faults_of(*R.plan, id);
    io_faults(fs);
    note(fmt("op %lld: read raw %zux%zu (%zu bytes) dir \"%s\" name \"%s\": file %s", (long long)id, t->rows(), t->cols(), t->bytes(), dir.c_str(), name.c_str(),
             exists ? fmt("%zu bytes", bytes.size()).c_str() : "missing"));
    Any* pt = t.get();
    Call c = call(R, id, "read_from_raw", [pt, &dir, &name] { pt->read_raw(dir, name); }, nomem_of(*R.plan, id));
    const std::string got = t->image();
    const bool err = c.nomem || io_fired(F_READ_ERR) || io_fired(F_READ_ONCE) || io_fired(F_OPEN_ERR) || io_fired(F_CLOSE_ERR);
    const bool enough = exists && bytes.size() >= t->bytes();
    const bool good = enough && t->canon(bytes.substr(0, got.size())) == got;
    const bool rejected = got == before;
    if (enough && !err) {
        if (!good) violate("read-content", fmt("reading %s: got %s, the file holds %s", rel.c_str(), show(got).c_str(), show(bytes).c_str()));
        if (!c.out.empty()) violate("false-report", fmt("reading %s succeeded but says \"%s\"", rel.c_str(), c.out.c_str()));
        count(bytes.size() == t->bytes() ? "op.read_exact" : "op.read_longer_file");
    } else {
        const bool ok_anyway = enough && good;
        if (!ok_anyway && !rejected)
            violate("partial-read", fmt("a read that could not complete (file %s, %s) changed the matrix: before %s, after %s", exists ? fmt("%zu bytes", bytes.size()).c_str() : "missing",
                    err ? "I/O error" : "too short or missing", show(before).c_str(), show(got).c_str()));
        if (!ok_anyway && c.out.empty() && !c.threw)
            violate("silent-failure", fmt("a read that could not complete (file %s, %s) printed nothing", exists ? fmt("%zu bytes", bytes.size()).c_str() : "missing", err ? "I/O error" : "too short or missing"));
        if (!ok_anyway) count(err ? "op.read_io_error" : exists ? "op.read_short_file" : "op.read_missing");
    }
    check_tree(R, "", false, "read_from_raw");
    event("read", hash_bytes(got.data(), got.size()));
}

// a file far longer than any matrix: sparse, its head holds a matrix
void huge_op(Run& R, const Line& l) {
    // h id type value size surplus
    const int64_t id = l.arg(0);
    std::unique_ptr<Any> head(make(l.arg(1))), t(make(l.arg(1)));
    fill(*head, l.arg(2));
    fill(*t, l.arg(2) + 77);
    static const int64_t around[] = {1ll << 31, 1ll << 32, 1ll << 33, (1ll << 32) + (1ll << 31)};
    const int64_t len = around[uint64_t(l.arg(3)) % 4] + l.arg(4) % (2 * int64_t(t->bytes()));
    if (len < int64_t(t->bytes())) invalid();
    const std::string path = scratch() + "/huge.raw", image = head->image();
    write_file(path, image);
    if (truncate(path.c_str(), len) != 0) { count("op.no_huge_files_here"); remove(path.c_str()); return; }
    count("fault.huge_file");
    note(fmt("op %lld: read raw %zux%zu (%zu bytes) from a file of %lld bytes", (long long)id, t->rows(), t->cols(), t->bytes(), (long long)len));
    io_faults(faults_of(*R.plan, id));
    Any* pt = t.get();
    Call c = call(R, id, "read_from_raw", [pt] { pt->read_raw(scratch(), "huge.raw"); });
    struct stat st;
    const bool same_size = stat(path.c_str(), &st) == 0 && st.st_size == len;
    if (t->image() != image) violate("read-content", fmt("reading the head of a file of %lld bytes: got %s, the file holds %s", (long long)len, show(t->image()).c_str(), show(image).c_str()));
    if (!c.out.empty()) violate("false-report", fmt("reading the head of a file of %lld bytes succeeded but says \"%s\"", (long long)len, c.out.c_str()));
    if (!same_size) violate("other-file", "reading changed the file's length");
    remove(path.c_str());
    check_tree(R, "", false, "read_from_raw");
    event("huge", uint64_t(len));
}

// the environment changes a stored file
void damage_op(Run& R, const Line& l) {
    // d id dir name kind amount
    const std::string rel = dir_canon(l.arg(1)) + stored_name(name_of(l.arg(2), false), false);
    if (!R.disk.count(rel)) return;
    std::string b = R.disk[rel];
    const int64_t a = l.arg(4);
    switch (l.arg(3)) {
        case 0: b.resize(b.empty() ? 0 : size_t(a) % b.size()); count("fault.file_truncated"); break;
        case 1: b.append(size_t(1 + a % 5000), char(a)); count("fault.file_extended"); break;
        case 2: remove((scratch() + "/" + rel).c_str()); R.disk.erase(rel); count("fault.file_removed"); note("env: removed " + rel); return;
        case 3: if (!b.empty()) b.resize(b.size() - 1); count("fault.file_truncated"); break;
        default: if (!b.empty()) b[size_t(a) % b.size()] ^= char(1 << (a % 8)); count("fault.bit_flipped"); break;
    }
    write_file(scratch() + "/" + rel, b);
    R.disk[rel] = b;
    note(fmt("env: %s now has %zu bytes", rel.c_str(), b.size()));
    event("damage", b.size());
}

void body(int, void* p) {
    Run& R = *static_cast<Run*>(p);
    scratch();
    write_file(scratch() + "/keep", "untouched");   // a bystander; sub directories get one each
    if (mkdir((scratch() + "/sub").c_str(), 0700)) {}
    if (mkdir((scratch() + "/sub/deep").c_str(), 0700)) {}
    static const char* const more[] = {"/m.raw.csv", "/%s 100%%d", "/%s 100%%d/part", "/part", "/sub/part", "/sub/deep/part", "/m.raw.csv/part"};
    for (size_t i = 0; i < sizeof more / sizeof *more; ++i)
        if (mkdir((scratch() + more[i]).c_str(), 0700)) {}
    static const char* const places[] = {"/", "/sub/", "/sub/deep/", "/m.raw.csv/", "/%s 100%%d/"};
    for (size_t i = 0; i < 5; ++i) {
        if (mkdir((scratch() + places[i] + "isdir.raw").c_str(), 0700)) {}
        if (mkdir((scratch() + places[i] + "isdir.csv").c_str(), 0700)) {}
    }
    write_file(scratch() + "/sub/keep.raw", "untouched too");
    write_file(scratch() + "/sub/deep/keep.csv", "and this");
    R.disk["keep"] = "untouched"; R.disk["sub/keep.raw"] = "untouched too"; R.disk["sub/deep/keep.csv"] = "and this";
    set_poison(int(R.plan->get("poison", 0xA5)));
    int n = 0;
    for (size_t i = 0; i < R.plan->lines.size(); ++i) {
        const Line& l = R.plan->lines[i];
        if (l.k == "w") { write_op(R, l, false); ++n; }
        else if (l.k == "c") { write_op(R, l, true); ++n; }
        else if (l.k == "r") { read_op(R, l); ++n; }
        else if (l.k == "d") damage_op(R, l);
        else if (l.k == "h") { huge_op(R, l); ++n; }
    }
    if (n >= 2) nontrivial();
}
} // namespace


namespace sim {
#if defined(PROP_C01)
const char* const workload_property = "C01";
const char* const workload_rule = "one case = a history of raw writes and reads over a few files with short and interrupted transfers; non-trivial = at least two operations";
#elif defined(PROP_C02)
const char* const workload_property = "C02";
const char* const workload_rule = "one case = a history of raw writes, damage to stored files and reads with injected failures; non-trivial = at least two operations";
#elif defined(PROP_C03)
const char* const workload_property = "C03";
const char* const workload_rule = "one case = a history of raw writes with device failures and process deaths at chosen bytes and calls, each followed by a read; non-trivial = at least two operations";
#else
const char* const workload_property = "C04";
const char* const workload_rule = "one case = a history of CSV exports with short transfers, device failures and process deaths; non-trivial = at least two operations";
#endif

static const int64_t sizes[] = {4, 32, 48, 64, 128, 36, 35, 12, 72, 56, 17160, 16384, 32760, 64, 321600, 1283200, 12, 128, 1024, 8192, 65536, 8, 360, 144, 2048, 256, 144, 8832, 16800396};
static int64_t bytes_of(int64_t t) { return sizes[t]; }

static void soft_faults(Rng& r, Plan& p, int64_t id, int64_t size, int percent) {
    if (r.chance(percent)) {
        int64_t mx = r.pick({1, 2, 3, 7, 100, 4096, 9000});
        if (size / mx > 3000) mx = size / 300 + 1;
        p.add("fault", {id, F_SHORT, mx, r.below(1000)});
    }
    if (r.chance(percent)) p.add("fault", {id, F_EINTR, r.pick({10, 30, 60}), r.below(1000)});
}
static int64_t position(Rng& r, int64_t size) {
    switch (r.below(6)) {
        case 0: return 0;
        case 1: return r.below(size + 1);
        case 2: return std::max<int64_t>(0, size - 1);
        case 3: return std::min<int64_t>(size, 8191 + r.range(-2, 2));
        case 4: return r.below(std::min<int64_t>(size, 40) + 1);
        default: return r.below(size + 1) & ~int64_t(3);
    }
}

// a write: new values, or those of an earlier one once more, perhaps with one element changed
struct Written { int64_t type, value, dir, name; std::vector<int64_t> edits; };
static int64_t write_line(Rng& r, Plan& p, std::vector<Written>& done, const char* k, int64_t id, int64_t t, int64_t d, int64_t n, bool again) {
    Written w = {t, r.below(1000000), d, n, std::vector<int64_t>()};
    if (!done.empty() && r.chance(20)) {
        const size_t i = r.chance(60) ? done.size() - 1 : size_t(r.below(int64_t(done.size())));
        w = done[i];
        if (r.chance(70)) w.edits.push_back(r.chance(40) ? r.below(4) + 4 * (bytes_of(w.type) - 1 - r.below(30)) : r.below(4 * bytes_of(w.type)));
    }
    p.add(k, {id, w.type, w.value, w.dir, w.name, again});
    for (size_t i = 0; i < w.edits.size(); ++i) p.add("edit", {id, w.edits[i]});
    done.push_back(w);
    return w.type;
}

void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    std::vector<Written> done;
#if defined(PROP_C04)
    const bool giant = false;
#else
    const bool giant = r.below(1000) < 2;
#endif
    const int64_t ops = giant ? 2 : r.range(2, tier ? 14 : 7);
    const int64_t names = r.range(1, 4), n0 = r.below(NAMES), dirs = r.range(1, 3), d0 = r.below(DIRS);
    int64_t id = 0;
    std::vector<std::pair<int64_t, int64_t> > files;      // (dir,name) written
    std::vector<int64_t> type_at;
    const int64_t base_type = giant ? int64_t(GIANT) : pick_type(r);
    const int soft = int(r.pick({0, 30, 80}));
    const int hard = int(r.pick({0, 40, 80}));
    for (int64_t i = 0; i < ops; ++i) {
        ++id;
        const int64_t d = (d0 + r.below(dirs)) % DIRS, n = (n0 + r.below(names)) % NAMES;
        int64_t t = giant || r.chance(50) ? base_type : pick_type(r);
#if defined(PROP_C04)
        if (t == 14 || t == 15 || t == 6) t = 10;
        if ((t == 20 || t == 12) && r.chance(80)) t = 19;
        t = write_line(r, p, done, "c", id, t, d, n, r.chance(30));
        int64_t size = bytes_of(t) * 3;
        if (r.chance(hard / 4)) { p.add("fault", {id, F_WRITE_ONCE, r.below(size > 8000 ? 80 : 12), r.pick({ENOSPC, EIO, EDQUOT})}); continue; }
        if (r.chance(hard / 6)) p.add("nomem", {id, r.below(8)});
        soft_faults(r, p, id, size, soft);
        if (r.chance(hard)) switch (r.below(5)) {
            case 0: p.add("fault", {id, F_WRITE_ERR, position(r, size), r.pick({ENOSPC, EIO, EDQUOT, EFBIG})}); break;
            case 1: p.add("fault", {id, F_OPEN_ERR, 0, r.pick({EACCES, EMFILE, ENOSPC, EROFS})}); break;
            case 2: p.add("fault", {id, F_CLOSE_ERR, 0, 0}); break;
            case 3: p.add("fault", {id, F_CRASH_BYTE, position(r, size), 0}); break;
            default: p.add("fault", {id, F_CRASH_CALL, r.below(bytes_of(t) > 2000 ? 80 : 12), 0}); break;
        }
#elif defined(PROP_C03)
        t = write_line(r, p, done, "w", id, t, d, n, r.chance(35));
        int64_t size = bytes_of(t);
        if (r.chance(hard / 4)) { p.add("fault", {id, F_WRITE_ONCE, r.below(4), r.pick({ENOSPC, EIO, EDQUOT})}); continue; }
        if (r.chance(hard / 6)) p.add("nomem", {id, r.below(6)});
        soft_faults(r, p, id, size, soft);
        if (r.chance(20 + hard)) switch (r.below(6)) {
            case 0: case 1: p.add("fault", {id, F_WRITE_ERR, position(r, size), r.pick({ENOSPC, EIO, EDQUOT, EFBIG})}); break;
            case 2: if (r.chance(50)) p.add("fault", {id, F_OPEN_ERR, 0, r.pick({EACCES, EMFILE, ENOSPC, EROFS})});
                    else p.add("fault", {id, F_CLOSE_ERR, 0, 0});
                    break;
            case 3: case 4: p.add("fault", {id, F_CRASH_BYTE, position(r, size), 0}); break;
            default: p.add("fault", {id, F_CRASH_CALL, r.below(6), 0}); break;
        }
#else
#if defined(PROP_C02)
        if (r.chance(3)) {
            p.add("h", {id, t, r.below(1000000), r.below(4), r.chance(50) ? r.below(8) : r.below(4000)});
            soft_faults(r, p, id, bytes_of(t), soft);
            continue;
        }
#endif
        const bool write = i == 0 || files.empty() || r.chance(45);
        if (write) {
#if defined(PROP_C01)
            if (!done.empty() && r.chance(10)) p.add("d", {id, done.back().dir, done.back().name, r.below(5), r.below(400000)}), ++id;
#endif
            t = write_line(r, p, done, "w", id, t, d, n, false);
            soft_faults(r, p, id, bytes_of(t), soft);
            files.push_back(std::make_pair(done.back().dir, done.back().name));
            type_at.push_back(t);
        } else {
            const size_t k = size_t(r.below(int64_t(files.size())));
            int64_t rt = r.chance(70) ? type_at[k] : pick_type(r);
#if defined(PROP_C01)
            if (bytes_of(rt) > bytes_of(type_at[k])) rt = type_at[k];
            p.add("r", {id, rt, r.below(1000000), files[k].first, files[k].second, 0});
            soft_faults(r, p, id, bytes_of(rt), soft);
#else
            if (r.chance(40)) p.add("d", {id, files[k].first, files[k].second, r.below(5), r.below(400000)});
            ++id;
            p.add("r", {id, rt, r.below(1000000), files[k].first, r.chance(90) ? files[k].second : r.below(NAMES), r.chance(5)});
            soft_faults(r, p, id, bytes_of(rt), soft);
            if (r.chance(hard / 4)) p.add("nomem", {id, r.below(5)});
            if (r.chance(hard / 4)) { p.add("fault", {id, F_READ_ONCE, r.below(4), r.pick({EIO, ESTALE})}); continue; }
            if (r.chance(hard)) switch (r.below(4)) {
                case 0: case 1: p.add("fault", {id, F_READ_ERR, position(r, bytes_of(rt)), r.pick({EIO, ESTALE, EBADMSG})}); break;
                case 2: p.add("fault", {id, F_OPEN_ERR, 0, r.pick({EACCES, EMFILE, ENOENT, ENFILE})}); break;
                default: p.add("fault", {id, F_CLOSE_ERR, 0, 0}); break;
            }
#endif
        }
#endif
    }
#if defined(PROP_C01)
    // every file written is read back at the end
    for (size_t k = files.size(); k-- > 0 && k + 4 > files.size();) {
        ++id;
        p.add("r", {id, type_at[k], r.below(1000000), files[k].first, files[k].second, 0});
        soft_faults(r, p, id, bytes_of(type_at[k]), soft);
    }
#endif
}
void workload_exec(const Plan& p) {
    Run R;
    R.plan = &p;
    run_threads(1, body, &R);
}
} // namespace sim
