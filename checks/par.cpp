// C14: several threads working on files and streams of their own at the same time; every file, stream and object must be
// what the thread's own operations make of it.
#include "text.hpp"
#include <memory>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#include <cfenv>
#include <clocale>

namespace sim {
const char* const workload_property = "C14";
const char* const workload_rule = "A case is one program of one to four threads writing and reading own files and own streams under the planned switches, short transfers and interruptions; every file, stream and object is compared after each operation with what that thread's operations give alone. It is non-trivial if at least two operations ran.";
using namespace text;

static const Plan* plan;
static int done_ops = 0;
static bool some_write_failed = false;
static std::vector<std::string> mine;              // files that some thread wrote
static std::vector<IoFault> faults_of(int64_t id) {
    std::vector<IoFault> v;
    for (size_t i = 0; i < plan->lines.size(); ++i)
        if (plan->lines[i].k == "fault" && plan->lines[i].arg(0) == id) {
            IoFault f = {int(plan->lines[i].arg(1)), plan->lines[i].arg(2), plan->lines[i].arg(3)};
            if (f.type == F_SHORT || f.type == F_EINTR || f.type == F_WRITE_ERR || f.type == F_WRITE_ONCE || f.type == F_READ_ERR || f.type == F_OPEN_ERR) v.push_back(f);
        }
    return v;
}
// where a thread's files are: own directories, or own names in a common one
struct Place { std::string dir, rel; };
enum { PLACES = 6 };
static Place place(int t, int64_t how) {
    Place p;
    const uint64_t k = uint64_t(how) % PLACES;
    switch (k) {
        case 0: p.dir = fmt("t%d", t); break;
        case 1: p.dir = scratch() + fmt("/t%d/", t); break;
        case 2: p.dir = fmt("a_directory_with_a_long_name_for_thread_%d/", t); break;
        case 3: p.dir = ""; break;
        case 5: for (int i = 0; i < 140; ++i) p.dir += "./"; p.dir += fmt("t%d", t); break;      // longer than 256 characters
        default: p.dir = scratch(); break;
    }
    p.rel = k == 2 ? p.dir : k < 2 || k == 5 ? fmt("t%d/", t) : "";
    return p;
}
static std::string name_of(int t, int64_t n, int64_t how) {
    static const char* const base[] = {"a", "b", "matrix", "x_with_a_name_longer_than_a_short_string", "m.raw", "m.csv", "matri"};
    const uint64_t k = uint64_t(how) % PLACES;
    std::string s = base[uint64_t(n) % 7];
    return k < 3 || k == 5 ? s : fmt("%d", t) + s;           // in a common directory the names differ
}
static std::string stored(const std::string& n, const char* suf) { return n.size() >= 3 && n.compare(n.size() - 3, 3, suf) == 0 ? n : n + "." + suf; }

static void check_csv(const Obj& m, const std::string& bytes, int id, const std::string& path) {
    size_t row = 0, i = 0;
    const size_t cols = m.columns(), rows = m.n() / cols;
    std::istringstream is(bytes);
    std::string line;
    while (std::getline(is, line)) {
        std::vector<std::string> toks;
        std::string cur;
        for (size_t k = 0; k <= line.size(); ++k) {
            char c = k < line.size() ? line[k] : ' ';
            if (strchr(" \t\r|,;", c)) { if (!cur.empty()) toks.push_back(cur); cur.clear(); }
            else cur += c;
        }
        if (toks.empty()) continue;
        if (toks.size() != cols || row >= rows) violate("csv", fmt("operation %d: %s line %d holds %d numbers instead of %d (%d rows)", id, path.c_str(), int(row), int(toks.size()), int(cols), int(rows)));
        for (size_t c = 0; c < cols; ++c, ++i) {
            std::ostringstream os;
            os.precision(5);
            m.show(os, i);
            if (os.str() != toks[c]) violate("csv", fmt("operation %d: %s row %d column %d holds \"%s\" instead of \"%s\"", id, path.c_str(), int(row), int(c), toks[c].c_str(), os.str().c_str()));
        }
        ++row;
    }
    if (row != rows) violate("csv", fmt("operation %d: %s holds %d rows instead of %d", id, path.c_str(), int(row), int(rows)));
}
template <class F> static void run_op(int id, F f) {
    std::string what;
    bool threw = false;
    {
        OpScope s(id);
        try { f(); s.end(); }
        catch (const std::exception& e) { s.end(); threw = true; what = e.what(); }
        catch (...) { s.end(); threw = true; what = "unknown"; }
    }
    if (threw) violate("exception", fmt("operation %d threw %s", id, what.c_str()));
}
// an export or raw write that the device refused: whatever is there now is not looked at
static void lost(std::map<std::string, std::string>& disk, const std::string& path) {
    disk.erase(path);
    remove((scratch() + "/" + path).c_str());
    some_write_failed = true;
    count("op.write_failed");
}
// how many of the characters of an operation a refusing sink got
static size_t refusal(std::ostream& os, Sink& sink, size_t had, size_t full) {
    const bool fired = sink.fired;
    if (fired && !os.fail()) violate("stream", "the sink refused characters, but the stream shows no failure");
    os.clear();
    sink.heal();
    os.width(0);
    const size_t now = sink.all().size();
    return fired ? std::min(full, now > had ? now - had : 0) : full;
}
// what every thread shares without naming it
static std::string surroundings() {
    std::ostringstream s;
    char cwd[4096] = "?";
    if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
    const mode_t m = umask(0);
    umask(m);
    const std::ios* const standard[] = {&std::cout, &std::cerr, &std::cin};
    s << cwd << " mask " << m << " rounding " << fegetround() << " locale " << std::locale().name() << " " << setlocale(LC_ALL, 0);
    for (int i = 0; i < 3; ++i)
        s << " flags " << standard[i]->flags() << " precision " << standard[i]->precision() << " width " << standard[i]->width() << " fill " << int(standard[i]->fill())
          << " state " << standard[i]->rdstate() << " exceptions " << standard[i]->exceptions() << " locale " << standard[i]->getloc().name() << " tie " << (standard[i]->tie() != 0);
    return s.str();
}
static void body(int t, void*) {
    std::map<std::string, std::string> disk;         // this thread's files
    std::map<std::string, std::string> csv_of;       // and its exports, by path: bytes seen right after the write
    Sink sink(size_t(plan->get("area", 0)));
    std::ostream os(&sink);
    std::string text;                                // what the stream must hold
    for (size_t li = 0; li < plan->lines.size(); ++li) {
        const Line& l = plan->lines[li];
        if (l.k != "op" || l.arg(1) != t) continue;
        // op id thread what kind seed place name
        const int id = int(l.arg(0)), what = int(uint64_t(l.arg(2)) % 7);
        const Place pl = place(t, l.arg(5));
        const std::string name = name_of(t, l.arg(6), l.arg(5));
        std::unique_ptr<Obj> o(what < 3 ? make_file(l.arg(3)) : what < 5 ? make(l.arg(3)) : make(((l.arg(3) % STREAM_KINDS) + STREAM_KINDS) % STREAM_KINDS));
        fill(*o, uint64_t(l.arg(4)), what != 0 && what != 1);
        const std::string before = o->image();
        if (const int64_t code = l.arg(7)) {                 // the thread's stream gets settings of its own
            os.imbue(std::locale::classic());
            os.fill(' ');
            settings(os, code, what == 3 || what == 4);
        }
        const std::ios_base::fmtflags flags = os.flags();
        const std::streamsize precision = os.precision();
        const char pad = os.fill();
        const std::locale loc = os.getloc();
        const int64_t refuse = l.arg(8, -1);                 // the sink takes that many characters more and no others
        note(fmt("operation %d thread %d what %d %s dir \"%s\" name \"%s\"", id, t, what, o->kind(), pl.dir.c_str(), name.c_str()));
        io_faults(faults_of(id));
        Obj* x = o.get();
        const Obj* cx = x;
        if (what == 0) {
            run_op(id, [&] { cx->write_raw(pl.dir, name); });
            const std::string path = pl.rel + stored(name, "raw"), want(x->elements(), x->element_bytes());
            bool ok = false;
            const std::string got = read_file(scratch() + "/" + path, &ok);
            if (io_fired(F_WRITE_ERR) || io_fired(F_WRITE_ONCE) || io_fired(F_OPEN_ERR)) lost(disk, path);
            else if (!ok || got != want) violate("file", fmt("operation %d: %s %s", id, path.c_str(), ok ? fmt("holds %d bytes %s instead of %d bytes %s", int(got.size()), hex(got.data(), got.size()).c_str(), int(want.size()), hex(want.data(), want.size()).c_str()).c_str() : "does not exist"));
            else disk[path] = want;
            count("op.write_raw");
        } else if (what == 1) {
            const std::string file = stored(name, "raw"), path = pl.rel + file;
            run_op(id, [&] { x->read_raw(pl.dir, file); });
            std::string want(before.data() + (x->elements() - x->data()), x->element_bytes());
            const std::string old = want;
            if (disk.count(path) && disk[path].size() >= want.size()) want = disk[path].substr(0, want.size());
            if ((io_fired(F_READ_ERR) || io_fired(F_OPEN_ERR)) && !memcmp(old.data(), x->elements(), old.size())) count("op.read_failed");
            else if (memcmp(want.data(), x->elements(), want.size())) violate("read", fmt("operation %d: reading %s gave %s instead of %s", id, path.c_str(), hex(x->elements(), x->element_bytes()).c_str(), hex(want.data(), want.size()).c_str()));
            count(disk.count(path) ? "op.read_raw" : "op.read_missing");
        } else if (what == 2) {
            run_op(id, [&] { cx->write_csv(pl.dir, name); });
            const std::string path = pl.rel + stored(name, "csv");
            bool ok = false;
            const std::string got = read_file(scratch() + "/" + path, &ok);
            if (io_fired(F_WRITE_ERR) || io_fired(F_WRITE_ONCE) || io_fired(F_OPEN_ERR)) lost(disk, path);
            else {
                if (!ok) violate("file", fmt("operation %d: %s does not exist", id, path.c_str()));
                check_csv(*x, got, id, path);
                disk[path] = got;
            }
            count("op.write_csv");
        } else if (what == 3 || what == 4) {
            std::ostringstream model;
            model.flags(flags); model.precision(precision); model.fill(pad); model.imbue(loc);
            x->model(model);
            if (refuse >= 0) { sink.room = refuse; sink.how = 1; sink.once = false; sink.fired = false; }
            run_op(id, [&] { cx->print(os); });
            if (refuse >= 0) {
                text += model.str().substr(0, refusal(os, sink, text.size(), model.str().size()));
                count("op.print_refused");
            } else text += model.str();
            count("op.print");
        } else if (what == 5) {
            std::string mine_now;
            for (size_t i = 0; i < x->n(); ++i) {
                std::ostringstream e;
                e.flags(flags); e.precision(precision); e.fill(pad); e.imbue(loc);
                x->show(e, i);
                mine_now += e.str() + " ";
            }
            if (refuse >= 0) { sink.room = refuse; sink.how = 1; sink.once = false; sink.fired = false; }
            run_op(id, [&] { cx->write(os); });
            if (refuse >= 0) mine_now.resize(refusal(os, sink, text.size(), mine_now.size()));
            text += mine_now;
            count("op.write_stream");
        } else {
            Source src;
            std::string s;
            std::unique_ptr<Obj> v(make(((l.arg(3) % STREAM_KINDS) + STREAM_KINDS) % STREAM_KINDS));
            fill(*v, uint64_t(l.arg(4)) + 5, true);
            const int64_t code = l.arg(7);
            for (size_t i = 0; i < v->n(); ++i) {
                std::ostringstream e;
                if (code) settings(e, code, false); else e.precision(20);
                v->show(e, i);
                std::istringstream back(e.str());
                if (code) settings(back, code, false);
                if (!v->take(back, i)) invalid();
                s += e.str() + " ";
            }
            src.supply(s);
            src.chunk = uint64_t(1 + uint64_t(l.arg(6)) % 9);
            std::istream is(&src);
            if (code) settings(is, code, false);
            const std::ios_base::fmtflags f0 = is.flags();
            const std::streamsize p0 = is.precision();
            run_op(id, [&] { x->read(is); });
            if (is.fail()) violate("stream", fmt("operation %d: reading failed", id));
            if (is.flags() != f0 || is.precision() != p0) violate("stream", fmt("operation %d left the stream it reads in another state", id));
            for (size_t i = 0; i < v->n(); ++i) if (!x->same(*v, i)) violate("read", fmt("operation %d: element %d was read as %.17g instead of %.17g", id, int(i), x->get(i), v->get(i)));
            count("op.read_stream");
        }
        io_clear();
        if (what != 1 && what != 6 && x->image() != before) violate("object", fmt("operation %d changed the object it writes", id));
        if (what == 1 || what == 6) {
            const std::string now = x->image();
            if (now.compare(0, 48, before, 0, 48) || now.compare(now.size() - 48, 48, before, before.size() - 48, 48)) violate("object", fmt("operation %d wrote outside its object", id));
        }
        if (sink.all() != text) violate("stream", fmt("operation %d: the thread's stream holds \"...%s\" instead of \"...%s\"", id, sink.all().substr(sink.all().size() > 150 ? sink.all().size() - 150 : 0).c_str(), text.substr(text.size() > 150 ? text.size() - 150 : 0).c_str()));
        if (!os.good() || os.precision() != precision || os.flags() != flags || os.fill() != pad || !(os.getloc() == loc)) violate("stream", fmt("operation %d left the thread's stream in another state", id));
        event("op", uint64_t(id), hash_bytes(text.data(), text.size()));
        ++done_ops;
    }
    for (std::map<std::string, std::string>::const_iterator i = disk.begin(); i != disk.end(); ++i) mine.push_back(i->first);
    // nobody else has touched them
    for (std::map<std::string, std::string>::const_iterator i = disk.begin(); i != disk.end(); ++i)
        if (read_file(scratch() + "/" + i->first) != i->second) violate("file", fmt("at the end %s of thread %d does not hold what the thread wrote", i->first.c_str(), t));
}
void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    p.set("area", r.pick({0, 1, 7, 80}));
    const int64_t threads = r.pick({1, 2, 2, 3, 4}), per = r.range(1, tier ? 12 : 6);
    p.set("threads", threads);
    p.set("first", r.below(threads));
    SwitchGen sg(r);
    const int64_t how = r.below(PLACES), names = r.chance(30) ? 7 : r.range(1, 3), what = r.below(7), kind = r.below(64);
    const int soft = int(r.pick({0, 30, 80})), formats = int(r.pick({0, 40, 90})), hard = int(r.pick({0, 0, 15}));
    std::vector<std::vector<int64_t> > wrote; wrote.resize(size_t(threads));
    for (int64_t i = 0; i < per * threads; ++i) {
        const int64_t id = i + 1, t = i % threads;
        int64_t w = r.chance(45) ? what : r.below(7);
        int64_t k = r.chance(60) ? kind : r.below(64);
        if (w < 3 && k % FILE_KINDS >= 8 && r.chance(70)) k = r.below(8);
        std::vector<int64_t>& last = wrote[size_t(t)];
        if (!last.empty() && r.chance(30)) {               // read back what was written
            last[0] = id; last[2] = 1; last[4] = r.below(100000);
            p.add("op", last);
            w = 1; k = last[3];
        } else {
            const std::vector<int64_t> op = {id, t, w, k, r.below(100000), r.chance(70) ? how : r.below(PLACES), r.below(names),
                                             r.chance(formats) ? r.below(100000) : 0, w >= 3 && w < 6 && r.chance(hard) ? r.below(200) : -1};
            p.add("op", op);
            if (w == 0) last = op;
        }
        if (w < 3 && r.chance(soft)) {
            if (r.chance(70)) p.add("fault", {id, F_SHORT, k % FILE_KINDS >= 8 ? r.pick({300, 4096, 9000}) : r.pick({1, 3, 20, 100}), r.below(1000)});
            if (r.chance(70)) p.add("fault", {id, F_EINTR, r.pick({10, 30, 60}), r.below(1000)});
        }
        if (w < 3 && r.chance(hard)) {
            if (r.chance(20)) p.add("fault", {id, F_OPEN_ERR, 0, r.pick({EACCES, EMFILE})});
            else if (w == 1) p.add("fault", {id, F_READ_ERR, r.below(100), EIO});
            else if (r.chance(50)) p.add("fault", {id, F_WRITE_ERR, r.below(200), r.pick({ENOSPC, EIO})});
            else p.add("fault", {id, F_WRITE_ONCE, r.below(3), r.pick({ENOSPC, EIO})});
        }
        if (threads > 1) sg.gen(r, p, int(id), int(threads), int(t));
    }
    if (r.chance(5)) p.set("nested", r.pick({1, 3, 10}));
}
void workload_exec(const Plan& p) {
    plan = &p;
    set_poison(int(p.get("poison", 0xA5)));
    nest().every = std::max<int64_t>(0, p.get("nested", 0));
    const int threads = int(std::max<int64_t>(1, std::min<int64_t>(8, p.get("threads", 1))));
    scratch();
    for (int t = 0; t < threads; ++t)
        for (int k = 0; k < 3; k += 2) {
            std::string d = place(t, k).dir;
            if (mkdir(d.c_str(), 0700)) {}
        }
    const std::string around = surroundings();
    run_threads(threads, body, 0, int(p.get("first", 0)));
    if (surroundings() != around) violate("surroundings", "the operations left the process with " + surroundings() + " instead of " + around);
    std::vector<std::string> have = list_files(scratch());
    std::sort(mine.begin(), mine.end());
    for (size_t i = 0; i < have.size() && !some_write_failed; ++i)
        if (!std::binary_search(mine.begin(), mine.end(), have[i])) violate("file", "a file that no operation names was written: " + have[i]);
    if (done_ops >= 2) nontrivial();
}
} // namespace sim
