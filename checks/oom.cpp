// C18: every memory request of an operation fails once; then the operation is repeated with memory available.
#include "fill.hpp"
#include "text.hpp"
#include <vmmlib/lowpass_filter.hpp>
#include <exception>
#include <map>
#include <memory>
#include <typeinfo>
#include <sys/stat.h>

namespace sim {
const char* const workload_property = "C18";
const char* const workload_rule = "A case is one history of operations (file transfers, printing, serialisation, filters, rejected accesses, arithmetic of every family), each run once normally and then with each of its memory requests failing in turn, followed by a repetition with memory available. It is non-trivial if at least one request failed.";
using namespace conc;

template <class T> static Table<T>& table();
template <> Table<int>& table<int>() { static Table<int>* t = 0; if (!t) { t = new Table<int>; reg_vector(*t); reg_matrix(*t); reg_matrix2(*t); reg_square(*t); reg_big(*t); } return *t; }
template <class T> static Table<T>& table_f() { static Table<T>* t = 0; if (!t) { t = new Table<T>; reg_vector(*t); reg_matrix(*t); reg_matrix2(*t); reg_square(*t); reg_big(*t); reg_quaternion(*t); reg_geometry(*t); } return *t; }
template <> Table<float>& table<float>() { return table_f<float>(); }
template <> Table<double>& table<double>() { return table_f<double>(); }

static const Plan* plan;
static uint64_t failures = 0;
struct Outcome { bool threw, bad_alloc, fired; std::string what, out; };
static const char* current = "";
static int current_id = 0;
static int64_t current_k = -1;
static std::string where() { return fmt("operation %d (%s)%s", current_id, current, current_k >= 0 ? fmt(", memory request %d failing", int(current_k)).c_str() : ""); }

// one call with its k-th request failing (-1: none)
template <class F> static Outcome attempt(int id, int64_t k, F f, bool keeps = false) {
    Outcome o;
    o.threw = o.bad_alloc = false;
    current_k = k;
    cout_clear();
    op_alloc_reset();
    const int fds = open_fds();
    fail_alloc(k);
    {
        OpScope s(id, false);
        try { f(); s.end(); }
        catch (const std::bad_alloc&) { s.end(); o.threw = o.bad_alloc = true; }
        catch (const std::exception& e) { s.end(); o.threw = true; o.what = e.what(); }
        catch (...) { s.end(); o.threw = true; o.what = "unknown"; }
    }
    o.fired = alloc_failed();
    fail_alloc(-1);
    o.out = cout_text();
    if (o.fired) ++failures;
    if (k >= 0 && o.bad_alloc && !o.fired) violate("bad_alloc", where() + ": bad_alloc although no request failed");
    if (!keeps && op_outstanding() != 0) violate("leak", where() + fmt(": %d allocations are left behind", int(op_outstanding())));
    if (open_fds() != fds) violate("descriptor", where() + ": the number of open descriptors has changed");
    event("attempt", uint64_t(id), uint64_t(k) << 4 | uint64_t(o.threw) << 2 | uint64_t(o.fired));
    if (o.fired) count(o.bad_alloc ? "op.ended_in_bad_alloc" : o.threw ? "op.ended_in_exception" : "op.went_on");
    return o;
}
enum { MOST = 120 };

// ---------------------------------------------------------------- arithmetic of every family
template <class T> static Bank<T>& bank_of(Regs& r);
template <> Bank<float>& bank_of<float>(Regs& r) { return r.f; }
template <> Bank<double>& bank_of<double>(Regs& r) { return r.d; }
template <> Bank<int>& bank_of<int>(Regs& r) { return r.i; }
template <class T> static void generic(const Line& l, Regs& own, Regs& shared, int id, int64_t first, int64_t last) {
    Op<T>& op = table<T>().ops[size_t(l.arg(3)) % table<T>().ops.size()];
    const std::string name = op.name;
    current = name.c_str();
    Bank<T>& b = bank_of<T>(own);
    Filler<T>(0, 0).tame(b);
    std::string before(reinterpret_cast<char*>(&b), sizeof b), normal;
    const uint64_t sh0 = hash_bytes(&shared, sizeof shared);
    std::unique_ptr<C<T> > c(new C<T>);
    uint64_t hash = 0;
    bool normally_throws = false;
    for (int64_t k = first; k <= last; ++k) {
        const bool dry = k == first;
        for (int again = 0; again < 2; ++again) {
            memcpy(static_cast<void*>(&b), before.data(), sizeof b);
            C<T>& cc = *c;
            memset(static_cast<void*>(static_cast<Env*>(&cc)), 0, sizeof(Env));
            for (int i = 0; i < ARGS; ++i) cc.a[i] = l.arg(size_t(4 + i));
            cc.base = reinterpret_cast<char*>(&b); cc.size = sizeof b;
            cc.fresh = false; cc.arena = 0;
            cc.own = &b; cc.shared = &bank_of<T>(shared);
            cc.outh = 1;
            void (*fn)(C<T>&) = op.fn;
            const Outcome o = attempt(id, dry || again ? -1 : k, [&cc, fn] { fn(cc); });
            const std::string now(reinterpret_cast<char*>(&b), sizeof b);
            if (dry) { normal = now; hash = cc.outh; normally_throws = o.threw; break; }
            if (!o.fired && !again) { memcpy(static_cast<void*>(&b), normal.data(), sizeof b); return; }
            if (hash_bytes(&shared, sizeof shared) != sh0) violate("operand", where() + ": an object that is only read has changed");
            if (!o.threw || again) {
                if (again && o.threw != normally_throws) violate("repeat", where() + ": repeating ends differently: " + o.what);
                if (now != normal || cc.outh != hash) violate(again ? "repeat" : "result", where() + (again ? ": repeating with memory available gives another result" : ": went on to a wrong result"));
            } else {
                std::string may(sizeof b, 0);
                const Env& e = cc;
                for (int i = 0; i < e.ndst; ++i) for (size_t j = 0; j < e.dst[i].len; ++j) may[e.dst[i].off + j] = 1;
                for (size_t j = 0; j < sizeof b; ++j) if (!may[j] && now[j] != before[j]) violate("operand", where() + ": an object that is only read has changed");
            }
        }
    }
}
// ---------------------------------------------------------------- files and streams
static std::map<std::string, std::string>* disk;
static void files(const Line& l, int id, int64_t first, int64_t last) {
    const int what = int(uint64_t(l.arg(3)) % 3);
    static const char* const dirs[] = {"", "sub", "a_directory_with_a_rather_long_name/", 0};
    static const char* const names[] = {"a", "m.raw", "a_name_that_is_longer_than_a_short_string"};
    const size_t dk = uint64_t(l.arg(6)) % 4, nk = uint64_t(l.arg(7)) % 3;
    const std::string dir = dirs[dk] ? dirs[dk] : scratch(), name = names[nk];
    const std::string rel = dk == 0 || dk == 3 ? "" : dk == 1 ? "sub/" : dirs[2];
    const std::string path = rel + (what == 2 ? name + ".csv" : nk == 1 ? name : name + ".raw"), full = scratch() + "/" + path;
    static const char* const what_names[] = {"write_to_raw", "read_from_raw", "write_csv_file"};
    current = what_names[what];
    std::unique_ptr<text::Obj> o(text::make_file(l.arg(4)));
    text::fill(*o, uint64_t(l.arg(5)), true);
    const std::string before = o->image();
    const std::string file = what == 1 ? path.substr(rel.size()) : name;
    std::string want, normal_image;
    text::Obj* x = o.get();
    const text::Obj* cx = x;
    for (int64_t k = first; k <= last; ++k)
        for (int again = 0; again < 2; ++again) {
            const bool dry = k == first;
            for (size_t i = 0; i < o->bytes(); ++i) o->data()[i] = before[i];
            if (what != 1 && !dry) {                  // not what the normal write left there
                if ((k + again) % 3 == 0) { remove(full.c_str()); disk->erase(path); }
                else {
                    (*disk)[path] = (k + again) % 3 == 1 ? std::string("an older file") : want + "and more";
                    write_file(full, (*disk)[path]);
                }
            }
            const Outcome r = attempt(id, dry || again ? -1 : k, [&] { if (what == 0) cx->write_raw(dir, name); else if (what == 1) x->read_raw(dir, file); else cx->write_csv(dir, name); });
            bool there = false;
            const std::string now = read_file(full, &there);
            if (what == 1) { if (disk->count(path) ? now != (*disk)[path] : there) violate("file", where() + ": reading changed the file"); }
            else if (there) (*disk)[path] = now; else disk->erase(path);
            std::vector<std::string> have = list_files(scratch());
            for (size_t i = 0; i < have.size(); ++i)
                if (have[i] != path && what != 1 && !dry && !again && !disk->count(have[i])) remove((scratch() + "/" + have[i]).c_str());   // a temporary that could not be finished
                else if (have[i] != path && (!disk->count(have[i]) || read_file(scratch() + "/" + have[i]) != (*disk)[have[i]])) violate("file", where() + ": another file was changed: " + have[i]);
            if (what != 1 && x->image() != before) violate("operand", where() + ": the matrix that is written has changed");
            if (dry) {
                if (r.threw) violate("exception", where() + " threw although memory is available");
                want = now; normal_image = x->image();
                if (what != 1 && !there) violate("file", where() + ": no file although memory is available");
                break;
            }
            if (!r.fired && !again) return;
            const bool complete = what == 1 ? x->image() == normal_image : there && now == want;
            if (again) {
                if (r.threw || !complete) violate("repeat", where() + ": repeating with memory available does not give the normal result");
            } else {
                if (!complete && !r.threw && r.out.empty()) violate("silent", where() + ": went on to a wrong result without saying so");
                if (what == 1 && x->image() != normal_image && x->image() != before) violate("operand", where() + ": a read that could not complete changed the matrix");
                if (r.threw && !r.bad_alloc) violate("exception", where() + " threw " + r.what);
            }
        }
}
static void streams(const Line& l, int id, int64_t first, int64_t last) {
    const int what = int(uint64_t(l.arg(3)) % 3);
    static const char* const what_names[] = {"print", "write_to_stream", "read_from_stream"};
    current = what_names[what];
    const int64_t kind = what == 0 ? l.arg(4) : int64_t(uint64_t(l.arg(4)) % text::STREAM_KINDS);
    std::unique_ptr<text::Obj> o(text::make(kind)), v(text::make(kind));
    text::fill(*o, uint64_t(l.arg(5)), true);
    text::fill(*v, uint64_t(l.arg(5)) + 9, true);
    const std::string before = o->image();
    const bool mask = l.arg(6) & 1;
    std::string input, want, image;
    for (size_t i = 0; i < v->n(); ++i) { std::ostringstream e; e.precision(20); v->show(e, i); input += e.str() + " "; }
    text::Obj* x = o.get();
    const text::Obj* cx = x;
    for (int64_t k = first; k <= last; ++k)
        for (int again = 0; again < 2; ++again) {
            const bool dry = k == first;
            for (size_t i = 0; i < o->bytes(); ++i) o->data()[i] = before[i];
            text::Sink sink(size_t(l.arg(7)));
            text::Source src;
            src.supply(input);
            src.chunk = uint64_t(1 + uint64_t(l.arg(7)) % 9);
            std::ostream os(&sink);
            std::istream is(&src);
            text::settings(os, l.arg(8), false);
            { std::ostringstream warm; warm.imbue(os.getloc()); warm << 1.5 << 1; }        // a locale keeps what its first use allocates
            if (mask) { os.exceptions(std::ios::failbit | std::ios::badbit); is.exceptions(std::ios::failbit | std::ios::badbit); }
            const std::ios_base::fmtflags flags = os.flags();
            const std::streamsize prec = os.precision();
            const Outcome r = attempt(id, dry || again ? -1 : k, [&] { if (what == 0) cx->print(os); else if (what == 1) cx->write(os); else x->read(is); });
            const std::string got = sink.all();
            if (os.flags() != flags || os.precision() != prec) violate("settings", where() + ": the stream's formatting is not restored");
            if (what != 2 && x->image() != before) violate("operand", where() + ": the object that is written has changed");
            if (dry) {
                if (r.threw) violate("exception", where() + " threw although memory is available");
                want = got; image = x->image();
                break;
            }
            if (!r.fired && !again) return;
            const bool complete = what == 2 ? x->image() == image : got == want;
            if (again) { if (r.threw || !complete) violate("repeat", where() + ": repeating with memory available does not give the normal result"); }
            else {
                if (!complete && !r.threw && !os.fail() && !is.fail()) violate("silent", where() + ": went on to a wrong result without saying so");
                if (r.threw && !mask && !r.bad_alloc) violate("exception", where() + " threw " + r.what);
                if (what != 2 && want.compare(0, got.size(), got)) violate("text", where() + ": delivered no prefix of the normal text");
            }
        }
}
// ---------------------------------------------------------------- filters
struct Filters {
    typedef vmml::LowpassFilter<3, float> A;
    typedef vmml::LowpassFilter<40, Vector<4, double> > B;
    A a; B b; bool any;
    Filters() : a(0.5f), b(0.25f), any(false) {}
};
template <class F> static std::string value_of(const F& f) { return std::string(reinterpret_cast<const char*>(&f.get()), sizeof f.get()); }
static void put(float& t, double v) { t = float(v); }
static void put(Vector<4, double>& t, double v) { for (int i = 0; i < 4; ++i) t.array[i] = v + i; }
// what the filter's history is, seen through its answers to further samples
template <class F, class T> static std::string probe(F f, const T&) {
    std::string s;
    for (int i = 0; i < 6; ++i) { T t; put(t, double(i)); f.add(t); s += value_of(f); }
    return s;
}
template <class F, class T> static void filter_op(F& f, const T&, const Line& l, int id, bool filled, int64_t first, int64_t last) {
    const int what = int(uint64_t(l.arg(3)) % 3);
    static const char* const what_names[] = {"LowpassFilter::add", "copy of a LowpassFilter", "assignment of a LowpassFilter"};
    current = what_names[what];
    T t;
    put(t, double(l.arg(5) % 100) / 4);
    if (what == 0) {
        const std::string hist = probe(f, t), val = filled ? value_of(f) : std::string();
        for (int64_t k = first + 1; k <= last; ++k) {     // on a copy that lives and ends within the operation
            bool went = false;
            const Outcome r = attempt(id, k, [&] {
                F g(f);
                try { g.add(t); went = true; }
                catch (const std::bad_alloc&) {
                    Pause q;
                    if ((filled && value_of(g) != val) || probe(g, t) != hist) violate("filter", where() + ": the filter has changed");
                    throw;
                }
            });
            if (r.threw && !r.bad_alloc) violate("exception", where() + " threw " + r.what);
            if (probe(f, t) != hist) violate("operand", where() + ": the filter that is copied has changed");
            if (!r.fired) break;
        }
        const Outcome r = attempt(id, -1, [&] { f.add(t); }, true);
        if (r.threw) violate("repeat", where() + ": adding with memory available threw");
    } else {
        const std::string hist = probe(f, t);
        for (int64_t k = first; k <= last; ++k) {
            const bool dry = k == first;
            F other(0.75f);
            for (int i = 0; i < int(l.arg(4) % 7); ++i) other.add(t);
            for (int again = 0; again < 2; ++again) {
                bool good = false;
                const Outcome r = attempt(id, dry || again ? -1 : k, [&] {
                    if (what == 1) { F g(f); Pause q; good = !dry && !again ? true : probe(g, t) == hist; } else { F g(other); g = f; Pause q; good = !dry && !again ? true : probe(g, t) == hist; } });
                if (probe(f, t) != hist) violate("operand", where() + ": the filter that is copied has changed");
                if (dry || again) { if (r.threw || !good) violate("repeat", where() + ": the copy is not like the original"); }
                if (dry) break;
                if (!r.fired && !again) return;
                if (r.threw && !r.bad_alloc) violate("exception", where() + " threw " + r.what);
            }
        }
    }
}
// ---------------------------------------------------------------- rejected accesses and containers
static void rejected(const Line& l, int id, int64_t first, int64_t last) {
    const int what = int(uint64_t(l.arg(3)) % 7);
    current = "rejected access or container transfer";
    Matrix<4, 4, float> m, m0; Vector<3, double> v, v0; Matrix<33, 35, double> big, big0;
    for (size_t i = 0; i < 16; ++i) m.array[i] = float(i);
    for (size_t i = 0; i < 3; ++i) v.array[i] = double(i);
    for (size_t i = 0; i < 33 * 35; ++i) big.array[i] = double(i);
    m0 = m; v0 = v; big0 = big;
    std::vector<float> few(size_t(l.arg(4) % 16), 1.f), full(16, 2.f);
    for (int64_t k = first; k <= last; ++k) {
        bool threw_dry = false;
        const Outcome r = attempt(id, k == first ? -1 : k, [&] {
            switch (what) {
                case 0: m.at(4, 0) = 1; break;
                case 1: v.at(3) = 1; break;
                case 2: m = few; break;
                case 3: m = full; m = m0; break;
                case 4: m.set_column(9, m.get_column(0)); break;
                case 5: big.set_row(33, big.get_row(0)); break;
                default: { Matrix<2, 2, float> s; m.get_sub_matrix(s, 3, 3); }
            }
        });
        if (memcmp(m.array, m0.array, sizeof m.array) || memcmp(v.array, v0.array, sizeof v.array) || memcmp(big.array, big0.array, sizeof big.array)) violate("operand", where() + ": a rejected operation changed an object");
        (void)threw_dry;
#ifdef VMMLIB_SAFE_ACCESSORS
        if (what != 3 && !r.threw) violate("not-thrown", where() + ": the operation was not rejected");
#endif
        if (k != first && !r.fired) return;
    }
}
static void body(int, void*) {
    Regs* own = new Regs; Regs* shared = new Regs;
    memset(static_cast<void*>(own), 0, sizeof *own); memset(static_cast<void*>(shared), 0, sizeof *shared);
    const uint64_t seed = uint64_t(plan->get("values", 1));
    Filler<float>(seed, -1).bank(own->f); Filler<double>(seed + 1, -1).bank(own->d); Filler<int>(seed + 2, -1).bank(own->i);
    Filler<float>(seed + 3, -1).bank(shared->f); Filler<double>(seed + 4, -1).bank(shared->d); Filler<int>(seed + 5, -1).bank(shared->i);
    disk = new std::map<std::string, std::string>;
    Filters flt;
    int na = 0, nb = 0;
    fail_malloc_too(plan->get("malloc", 1) != 0);
    for (size_t li = 0; li < plan->lines.size(); ++li) {
        const Line& l = plan->lines[li];
        if (l.k != "op") continue;
        // op id family only what ...
        const int id = int(l.arg(0)), family = int(uint64_t(l.arg(1)) % 8);
        current_id = id;
        const int64_t only = l.arg(2);
        int64_t first = -1, last = MOST;               // first is the run without a failure
        if (only >= 0) last = std::min<int64_t>(only, MOST);
        note(fmt("operation %d family %d what %d", id, family, int(l.arg(3))));
        switch (family) {
            case 0: case 1:
                if (disk->empty() && list_files(scratch()).empty()) {
                    if (mkdir((scratch() + "/sub").c_str(), 0700) + mkdir((scratch() + "/a_directory_with_a_rather_long_name").c_str(), 0700)) {}
                }
                files(l, id, first, last);
                break;
            case 2: streams(l, id, first, last); break;
            case 3: if (l.arg(4) & 1) { filter_op(flt.a, float(), l, id, na > 0, first, last); if (l.arg(3) % 3 == 0) ++na; }
                    else { filter_op(flt.b, Vector<4, double>(), l, id, nb > 0, first, last); if (l.arg(3) % 3 == 0) ++nb; } break;
            case 4: rejected(l, id, first, last); break;
            case 5: generic<float>(l, *own, *shared, id, first, last); break;
            case 6: generic<double>(l, *own, *shared, id, first, last); break;
            default: generic<int>(l, *own, *shared, id, first, last); break;
        }
        count("op.run");
    }
    if (failures) nontrivial();
}
void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    p.set("values", r.below(1 << 30));
    p.set("malloc", r.chance(70));
    const int64_t n = r.range(1, tier ? 16 : 6), family = r.below(8);
    for (int64_t i = 1; i <= n; ++i) {
        const int64_t fam = r.chance(50) ? family : r.below(8);
        if (fam >= 5) p.add("op", {i, fam, -1, r.below(100000), r.below(64), r.below(64), r.below(64), r.below(64), r.below(64), r.below(64)});
        else p.add("op", {i, fam, -1, r.below(1000), r.below(1000), r.below(100000), r.below(64), r.pick({0, 1, 7, 80}), r.chance(40) ? 0 : r.below(1000)});
    }
}
void workload_exec(const Plan& p) {
    plan = &p;
    set_poison(int(p.get("poison", 0xA5)));
    scratch();
    run_threads(1, body, 0);
}
} // namespace sim
