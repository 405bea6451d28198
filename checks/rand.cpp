// C08: seeded and unseeded filling on one thread, with scripted generators including extremes.
// C09: draws taken by concurrent fills, perturbations and other operations on distinct objects.
#include "fill.hpp"
#include "text.hpp"
#include <vmmlib/lowpass_filter.hpp>
#include <cstdlib>
#include <memory>
#include <sys/stat.h>
#include <algorithm>

namespace sim {
#ifdef PROP_C08
const char* const workload_property = "C08";
const char* const workload_rule = "A case is one history of seeded and unseeded fills, perturbations, outside reseeding and other operations over several objects with a scripted generator (spread values, extremes in runs or alternating). It is non-trivial if at least one fill ran.";
#else
const char* const workload_property = "C09";
const char* const workload_rule = "A case is one program of one to four threads filling and perturbing distinct objects and applying other operations under the planned switches, with every draw logged. It is non-trivial if at least one fill or perturbation ran.";
#endif
using namespace conc;

// ---------------------------------------------------------------- objects that can be filled
struct Obj {
    virtual ~Obj() {}
    virtual void fill(int seed, bool plain) = 0;
    virtual void perturb(double p, bool plain) = 0;
    virtual bool can_perturb() const = 0;
    virtual int n() const = 0;
    virtual double get(int i) const = 0;
    virtual void put(int i, double v) = 0;
    virtual double cast(double v) const = 0;         // as the element type holds it
    virtual double add(double a, double b) const = 0;
    virtual bool integer() const = 0;
    virtual double eps() const = 0;
    virtual const void* bytes(size_t&) const = 0;
    virtual const char* name() const = 0;
};
template <class X> struct Perturb { enum { can = 0 }; static void go(X&, double, bool) {} };
template <size_t M, class T> struct Perturb<Vector<M, T> > {
    enum { can = 1 };
    static void go(Vector<M, T>& x, double p, bool plain) { if (plain) x.perturb(); else x.perturb(T(p)); }
};
template <class X, class T> struct ObjOf : Obj {
    X x; const char* nm;
    ObjOf(const char* n_) : nm(n_) {}
    enum { N = sizeof(X) / sizeof(T) };
    T* p() { return x.begin(); }
    const T* p() const { return x.begin(); }
    void fill(int seed, bool plain) { if (plain) x.set_random(); else x.set_random(seed); }
    void perturb(double q, bool plain) { Perturb<X>::go(x, q, plain); }
    bool can_perturb() const { return Perturb<X>::can; }
    int n() const { return N; }
    double get(int i) const { return double(p()[i]); }
    void put(int i, double v) { p()[i] = T(v); }
    double cast(double v) const { return double(T(v)); }
    double add(double a, double b) const { volatile T r = T(T(a) + T(b)); return double(r); }
    bool integer() const { return is_int<T>::v; }
    double eps() const { return is_int<T>::v ? 0 : 4 * double(std::numeric_limits<T>::epsilon()); }
    const void* bytes(size_t& k) const { k = sizeof x; return &x; }
    const char* name() const { return nm; }
};
enum { OBJS = 16 };
static Obj* make(int k) {
    switch (k) {
        case 0: return new ObjOf<Vector<2, float>, float>("Vector<2,float>");
        case 1: return new ObjOf<Vector<3, float>, float>("Vector<3,float>");
        case 2: return new ObjOf<Vector<4, float>, float>("Vector<4,float>");
        case 3: return new ObjOf<Vector<3, double>, double>("Vector<3,double>");
        case 4: return new ObjOf<Vector<4, double>, double>("Vector<4,double>");
        case 5: return new ObjOf<Vector<7, double>, double>("Vector<7,double>");
        case 6: return new ObjOf<Vector<64, float>, float>("Vector<64,float>");
        case 7: return new ObjOf<Vector<5, int>, int>("Vector<5,int>");
        case 8: return new ObjOf<Matrix<2, 2, float>, float>("Matrix<2,2,float>");
        case 9: return new ObjOf<Matrix<4, 4, float>, float>("Matrix<4,4,float>");
        case 10: return new ObjOf<Matrix<3, 3, double>, double>("Matrix<3,3,double>");
        case 11: return new ObjOf<Matrix<4, 3, double>, double>("Matrix<4,3,double>");
        case 12: return new ObjOf<Matrix<3, 7, float>, float>("Matrix<3,7,float>");
        case 13: return new ObjOf<Matrix<1, 9, double>, double>("Matrix<1,9,double>");
        case 14: return new ObjOf<Matrix<20, 11, float>, float>("Matrix<20,11,float>");
        default: return new ObjOf<Matrix<3, 2, int>, int>("Matrix<3,2,int>");
    }
}
static double mapped(int v) { return -1.0 + 2.0 * (double(v) / double(RAND_MAX)); }

// ---------------------------------------------------------------- scripted generators
static int script_mode = 0;
static int script(uint64_t n, uint64_t seed) {
    const int h = int(mix(mix(99, seed), n) & 0x7fffffff);
    switch (script_mode) {
        case 1: return 0;
        case 2: return RAND_MAX;
        case 3: return n & 1 ? RAND_MAX : 0;
        case 4: return (n / 7) % 2 ? (h & 1 ? RAND_MAX : 0) : h;
        case 5: return h & 0xff;                                  // small values
        case 6: return RAND_MAX - (h & 0xff);
        case 7: return (h % 5) == 0 ? RAND_MAX : (h % 5) == 1 ? 0 : h;
        default: return h;
    }
}

struct Rec { int id, thread, kind; int64_t a[8]; bool threw; };
static const double amounts[] = {0.0001, 0.5, 1, 3, 0.1, 1e-3, -2, 100, 0, 1e-30, -0.25, 1e20};
enum { AMOUNTS = 12 };

static void in_range(const Obj& o, int id) {
    for (int i = 0; i < o.n(); ++i) {
        const double v = o.get(i);
        if (!(v >= -1 && v <= 1)) violate("range", fmt("operation %d: element %d of %s is %.17g after a random fill", id, i, o.name(), v));
    }
}
// every draw of the operation appears once, as an element
static void as_drawn(const Obj& o, const std::vector<int>& draws, int id) {
    if (int(draws.size()) != o.n())
        violate("draws", fmt("operation %d: filling %s took %d draws for %d elements", id, o.name(), int(draws.size()), o.n()));
    std::vector<double> got, exp;
    for (int i = 0; i < o.n(); ++i) { got.push_back(o.get(i)); exp.push_back(o.cast(mapped(draws[size_t(i)]))); }
    std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
    for (int i = 0; i < o.n(); ++i) {
        const double tol = o.integer() ? 1.0 : o.eps();
        if (!(std::fabs(got[size_t(i)] - exp[size_t(i)]) <= tol))
            violate("draws", fmt("operation %d: the elements of %s are not what its own draws give (%.17g where %.17g belongs)", id, o.name(), got[size_t(i)], exp[size_t(i)]));
        if (!o.integer() && (exp[size_t(i)] == 1 || exp[size_t(i)] == -1)) {
            bool extreme = false;
            for (size_t k = 0; k < draws.size(); ++k) extreme = extreme || ((draws[k] == 0 || draws[k] == RAND_MAX) && o.cast(mapped(draws[k])) == exp[size_t(i)]);
            if (extreme && got[size_t(i)] != exp[size_t(i)])
                violate("extremes", fmt("operation %d: an extreme draw became %.17g instead of %.17g", id, got[size_t(i)], exp[size_t(i)]));
            count("probe.extreme_element");
        }
    }
}
static std::vector<int> draws_of(int op) {
    std::vector<int> v;
    for (size_t i = 0; i < rand_draws().size(); ++i) if (rand_draws()[i].op == op) v.push_back(rand_draws()[i].value);
    return v;
}
static std::vector<int> seeds_of(int op) {
    std::vector<int> v;
    for (size_t i = 0; i < rand_seeds().size(); ++i) if (rand_seeds()[i].op == op) v.push_back(rand_seeds()[i].value);
    return v;
}

// replays a given list of draws
static const std::vector<int>* replay = 0;
static int replay_fn(uint64_t n, uint64_t) { return (*replay)[size_t(n % replay->size())]; }

struct Done { int id; int obj; bool perturb; int64_t seed; double amount; bool plain; std::vector<double> before, after; std::vector<int> draws; };
static std::vector<Done> done_ops;
static std::vector<std::pair<std::pair<int64_t, int>, std::string> > first_fill;
static const Plan* plan;
static Regs* shared;

#ifdef PROP_C09
template <class T> static Table<T>& table() {
    static Table<T>* t = 0;
    if (!t) { t = new Table<T>(); reg_vector<T>(*t); reg_matrix<T>(*t); reg_matrix2<T>(*t); reg_square<T>(*t); reg_big<T>(*t); reg_quaternion<T>(*t); reg_geometry<T>(*t); }
    return *t;
}
template <class T> static void other(int id, int kind, const int64_t* a, Bank<T>& own, Bank<T>& sh) {
    Filler<T>(0, 0).tame(own);
    C<T>* c = new C<T>;
    memset(static_cast<void*>(static_cast<Env*>(c)), 0, sizeof(Env));
    memcpy(c->a, a, sizeof c->a);
    c->base = reinterpret_cast<char*>(&own); c->size = sizeof own; c->fresh = false; c->own = &own; c->shared = &sh;
    note(fmt("operation %d: %s", id, table<T>().ops[size_t(kind)].name.c_str()));
    OpScope s(id);
    try { table<T>().ops[size_t(kind)].fn(*c); } catch (...) {}
    s.end();
    delete c;
    if (!draws_of(id).empty() || !seeds_of(id).empty())
        violate("foreign-draw", fmt("operation %d (%s) %s the shared generator", id, table<T>().ops[size_t(kind)].name.c_str(), seeds_of(id).empty() ? "drew from" : "reseeded"));
    count("op.other");
}
#endif

#ifdef PROP_C09
// files, text, printing, filters, rejected accesses: none of them draws
static void elsewhere(int id, int t, int what, const int64_t* a) {
    static const char* const names[] = {"raw write", "raw read", "CSV export", "text write", "text read", "print", "filter", "rejected access", "missing file"};
    const std::string dir = scratch() + fmt("/%d", t), file = fmt("f%d", int(a[1]) & 1);
    { if (mkdir(dir.c_str(), 0700)) {} }
    std::unique_ptr<text::Obj> o(what < 3 || what == 8 ? text::make_file(a[0] % 8) : what < 5 ? text::make(wrap(a[0], text::STREAM_KINDS)) : text::make(a[0]));
    text::fill(*o, uint64_t(a[2]), true);
    std::ostringstream os;
    std::istringstream is("1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 x");
    vmml::LowpassFilter<7, float> f(0.5f);
    Matrix<3, 3, double> m;
    note(fmt("operation %d: %s", id, names[what]));
    OpScope s(id);
    try {
        switch (what) {
            case 0: o->write_raw(dir, file); break;
            case 1: o->read_raw(dir, file + ".raw"); break;
            case 2: o->write_csv(dir, file); break;
            case 3: o->write(os); break;
            case 4: o->read(is); break;
            case 5: o->print(os); break;
            case 6: { for (int i = 0; i < 12; ++i) f.add(float(a[2] + i)); f.set_smooth_factor(0.25f); vmml::LowpassFilter<7, float> g(f); g.add(3.f); break; }
            case 7: m.at(size_t(a[1] & 3), 3); break;
            default: o->read_raw(dir + "/none", "x"); break;
        }
    } catch (...) {}
    s.end();
    if (!draws_of(id).empty() || !seeds_of(id).empty())
        violate("foreign-draw", fmt("operation %d (%s) %s the shared generator", id, names[what], seeds_of(id).empty() ? "drew from" : "reseeded"));
    count("op.other");
}
#endif

static void body(int t, void*) {
    Regs own;
    std::vector<Obj*> objs(OBJS, (Obj*)0);
    for (size_t i = 0; i < plan->lines.size(); ++i) {
        const Line& l = plan->lines[i];
        if (l.k != "op" || l.arg(1) != t) continue;
        const int id = int(l.arg(0)), kind = int(l.arg(2));
        if (kind == 3) { OpScope s(id); srand(unsigned(l.arg(3))); s.end(); event("outside"); continue; }
        if (kind == 4) {
#ifdef PROP_C09
            const int64_t a[3] = {l.arg(4), l.arg(5), l.arg(6)};
            elsewhere(id, t, int(wrap(l.arg(3), 9)), a);
#endif
            continue;
        }
        if (kind == 2) {
#ifdef PROP_C09
            static bool f = false;
            (void)f;
            int64_t a[ARGS];
            for (int k = 0; k < ARGS; ++k) a[k] = l.arg(size_t(5 + k));
            if (own.f.v2[0].array[0] == 0) { Filler<float>(uint64_t(t), 1).bank(own.f); Filler<double>(uint64_t(t), 1).bank(own.d); }
            const int64_t k = l.arg(4);
            if (k < 0) invalid();
            if (l.arg(3)) { if (k >= int64_t(table<double>().ops.size())) invalid(); other<double>(id, int(k), a, own.d, shared->d); }
            else { if (k >= int64_t(table<float>().ops.size())) invalid(); other<float>(id, int(k), a, own.f, shared->f); }
#endif
            continue;
        }
        const int ok = int(wrap(l.arg(3), OBJS));
        Obj*& o = objs[size_t(ok)];
        if (!o) { o = make(ok); for (int k = 0; k < o->n(); ++k) o->put(k, 77); }
        Done d;
        d.id = id; d.obj = ok; d.seed = l.arg(4); d.plain = l.arg(5) != 0; d.perturb = kind == 1;
        if (d.perturb && !o->can_perturb()) continue;
        if (d.perturb) {
            d.amount = d.plain ? 0.0001 : amounts[wrap(l.arg(4), AMOUNTS)];
            if (o->integer()) { if (d.plain || (d.amount != 0 && d.amount < 1) || d.amount > 100) continue; }
        } else if (d.plain) d.seed = -1;
        if (!d.perturb && l.arg(6)) for (int k = 0; k < o->n(); ++k) o->put(k, double(l.arg(6)));
        for (int k = 0; k < o->n(); ++k) d.before.push_back(o->get(k));
        note(fmt("operation %d: %s %s seed/amount %g", id, d.perturb ? "perturb" : "fill", o->name(), d.perturb ? d.amount : double(d.seed)));
        {
            OpScope s(id);
            if (d.perturb) o->perturb(d.amount, d.plain);
            else o->fill(int(d.seed), d.plain);
            s.end();
        }
        nontrivial();
        for (int k = 0; k < o->n(); ++k) d.after.push_back(o->get(k));
        size_t nb;
        const void* pb = o->bytes(nb);
        event("op", uint64_t(id), hash_bytes(pb, nb));
        d.draws = draws_of(id);
        const std::vector<int> seeds = seeds_of(id);
        if (d.perturb || d.seed < 0) {
            if (!seeds.empty()) violate("reseeded", fmt("operation %d reseeded the generator", id));
        } else if (seeds.size() != 1 || seeds[0] != int(d.seed))
            violate("seed", fmt("operation %d with seed %d set %d seeds", id, int(d.seed), int(seeds.size())));
        if (!d.perturb) {
            in_range(*o, id);
            as_drawn(*o, d.draws, id);
            count(d.seed < 0 ? "op.fill_unseeded" : "op.fill_seeded");
#ifdef PROP_C08
            if (d.seed >= 0) {
                const std::string b(static_cast<const char*>(pb), nb);
                bool seen = false;
                for (size_t k = 0; k < first_fill.size(); ++k)
                    if (first_fill[k].first == std::make_pair(d.seed, ok)) {
                        seen = true;
                        count("probe.same_seed_again");
                        if (first_fill[k].second != b) violate("not-reproducible", fmt("operation %d: %s filled from seed %d differs from the first time", id, o->name(), int(d.seed)));
                    }
                if (!seen) first_fill.push_back(std::make_pair(std::make_pair(d.seed, ok), b));
            }
#endif
        } else {
            count("op.perturb");
            if (int(d.draws.size()) != o->n())
                violate("draws", fmt("operation %d: perturbing %s took %d draws for %d components", id, o->name(), int(d.draws.size()), o->n()));
            const double p = o->cast(d.amount);
            for (int k = 0; k < o->n(); ++k)
                if (d.after[size_t(k)] != o->add(d.before[size_t(k)], p) && d.after[size_t(k)] != o->add(d.before[size_t(k)], -p))
                    violate("perturb", fmt("operation %d: component %d of %s went from %.17g to %.17g, perturbed by %.17g", id, k, o->name(), d.before[size_t(k)], d.after[size_t(k)], p));
        }
        done_ops.push_back(d);
    }
    for (size_t i = 0; i < objs.size(); ++i) delete objs[i];
}

#ifdef PROP_C09
// alone, with the same draws: the same result; with one draw inverted: exactly one element differs
static void again(int, void*) {
    for (size_t i = 0; i < done_ops.size(); ++i) {
        Done& d = done_ops[i];
        if (d.draws.empty()) continue;
        Obj* o = make(d.obj);
        const int n = o->n();
        const int which = n > 12 ? 12 : n;
        for (int j = -1; j < which; ++j) {
            std::vector<int> list = d.draws;
            const int jj = j < 0 ? -1 : n > 12 ? int((uint64_t(d.id) * 7 + uint64_t(j) * 5) % uint64_t(n)) : j;
            if (jj >= 0) list[size_t(jj)] ^= 0x7fffffff;
            replay = &list;
            for (int k = 0; k < n; ++k) o->put(k, d.before[size_t(k)]);
            rand_script(replay_fn, 0);
            {
                OpScope s(100000 + d.id);
                if (d.perturb) o->perturb(d.amount, d.plain);
                else o->fill(d.seed >= 0 ? int(d.seed) : -1, d.plain);
                s.end();
            }
            int diff = 0, unlike = 0;
            for (int k = 0; k < n; ++k) {
                if (o->get(k) != d.after[size_t(k)]) ++diff;
                if (d.perturb) {
                    const double p = o->cast(d.amount);
                    if (o->add(d.before[size_t(k)], p) == o->add(d.before[size_t(k)], -p)) ++unlike;
                }
            }
            if (jj < 0) {
                if (diff) violate("isolation", fmt("operation %d on %s gives something else when run alone with the same draws", d.id, o->name()));
            } else if (!o->integer() || d.perturb) {
                const int orig = d.draws[size_t(jj)];
                // a value so close to the middle that both map alike does not occur with 31-bit complements
                (void)orig;
                if (diff != 1 && !(unlike && diff == 0))
                    violate("shared-draw", fmt("operation %d on %s: draw %d decides %d elements", d.id, o->name(), jj, diff));
            }
        }
        delete o;
    }
}
#endif

void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    p.set("script", r.chance(50) ? 0 : r.range(1, 7));
    p.set("salt", r.below(1 << 20));
#ifdef PROP_C08
    const int64_t threads = 1, per = r.range(2, tier ? 40 : 20);
#else
    const int64_t threads = r.pick({1, 2, 2, 3, 4}), per = r.range(2, tier ? 14 : 8);
#endif
    p.set("threads", threads);
    SwitchGen sg(r);
    const int64_t seeds[] = {r.below(1000), 0, 2147483647, 1};
    const int64_t kinds = r.range(1, 4), k0 = r.below(OBJS);
    const int pr = int(r.pick({10, 30, 60})), po = int(r.pick({10, 30, 60})), ps = int(r.pick({20, 50, 80}));
    int64_t id = 0;
    for (int64_t i = 0; i < per * threads; ++i) {
        const int64_t t = i % threads;
        ++id;
        const int64_t obj = (k0 + r.below(kinds) * 3) % OBJS;
        if (r.chance(8)) p.add("op", {id, t, 3, r.below(100)});
        else if (r.chance(po)) {
#ifdef PROP_C09
            if (r.chance(20)) { p.add("op", {id, t, 4, r.below(9), r.below(64), r.below(64), r.below(64)}); continue; }
            const int64_t d = r.below(2);
            const int64_t n = d ? int64_t(table<double>().ops.size()) : int64_t(table<float>().ops.size());
            p.add("op", {id, t, 2, d, r.below(n), r.below(64), r.below(64), r.below(64), r.below(64), r.below(64), r.below(64)});
#else
            p.add("op", {id, t, 1, r.below(8), r.below(AMOUNTS), r.chance(20)});
#endif
        } else if (r.chance(pr)) p.add("op", {id, t, 1, obj % 8, r.below(AMOUNTS), r.chance(20)});
        else p.add("op", {id, t, 0, obj, r.chance(ps) ? seeds[r.below(4)] : -1, r.chance(20), r.chance(30) ? r.range(2, 9) : 0});
        if (threads > 1) sg.gen(r, p, int(id), int(threads), int(t));
    }
}
void workload_exec(const Plan& p) {
    plan = &p;
    set_poison(int(p.get("poison", 0xA5)));
    script_mode = int(p.get("script", 0));
    rand_script(script, uint64_t(p.get("salt", 0)));
    rand_log(true);
    scratch();
    shared = new Regs;
#ifdef PROP_C09
    Filler<float>(1, 1).bank(shared->f);
    Filler<double>(1, 1).bank(shared->d);
#endif
    run_threads(int(std::max<int64_t>(1, std::min<int64_t>(8, p.get("threads", 1)))), body, 0);
#ifdef PROP_C09
    rand_log(false);
    load_switches(Plan());
    run_threads(1, again, 0);
#endif
}
} // namespace sim
