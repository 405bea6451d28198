// C15: histories of low-pass filters on several threads, with failing allocations, against the formula over the recorded samples.
#include <cstdint>
#include <cmath>
#include <new>
#include <deque>
#include <vmmlib/vector.hpp>
#include <vmmlib/quaternion.hpp>
#include <complex>
#include <vmmlib/lowpass_filter.hpp>
#include "sim.hpp"

namespace sim {
const char* const workload_property = "C15";
const char* const workload_rule = "A case is one history of additions, factor changes, copies and failed allocations over several filters on one to four threads under the planned switches; after every step every filter of the thread is compared with the formula over its own recorded samples. It is non-trivial if at least two additions succeeded.";
using vmml::Vector; using vmml::Quaternion;
using vmml::LowpassFilter;

template <class T> struct Comp { enum { n = 1 }; static double get(const T& v, int) { return double(v); } static void put(T& v, int, double x) { v = T(x); } static double eps() { return double(std::numeric_limits<T>::epsilon()); } };
template <size_t M, class T> struct Comp<Vector<M, T> > {
    enum { n = M };
    static double get(const Vector<M, T>& v, int i) { return double(v.array[i]); }
    static void put(Vector<M, T>& v, int i, double x) { v.array[i] = T(x); }
    static double eps() { return double(std::numeric_limits<T>::epsilon()); }
};
template <class T> struct Comp<std::complex<T> > {
    enum { n = 2 };
    static double get(const std::complex<T>& v, int i) { return double(i ? v.imag() : v.real()); }
    static void put(std::complex<T>& v, int i, double x) { v = i ? std::complex<T>(v.real(), T(x)) : std::complex<T>(T(x), v.imag()); }
    static double eps() { return double(std::numeric_limits<T>::epsilon()); }
};
template <class T> struct Comp<Quaternion<T> > {
    enum { n = 4 };
    static double get(const Quaternion<T>& v, int i) { return double(v.array[i]); }
    static void put(Quaternion<T>& v, int i, double x) { v.array[i] = T(x); }
    static double eps() { return double(std::numeric_limits<T>::epsilon()); }
};
struct Sample { double v[4]; };
struct Filter {
    virtual ~Filter() {}
    virtual Sample add(const Sample&) = 0;
    virtual Sample add_own(int how) = 0;        // its own value added, by reference
    virtual Sample get(int how) const = 0;
    virtual void factor(float) = 0;
    virtual Filter* copy() const = 0;
    virtual bool assign(const Filter&) = 0;
    virtual int window() const = 0;
    virtual int comps() const = 0;
    virtual double eps() const = 0;
    virtual double rounded(double) const = 0;
};
template <size_t M, class T> struct FilterOf : Filter {
    LowpassFilter<M, T> f;
    explicit FilterOf(float k) : f(k) {}
    FilterOf(const FilterOf& o) : f(o.f) {}
    static Sample out(const T& t) { Sample s; memset(&s, 0, sizeof s); for (int i = 0; i < Comp<T>::n; ++i) s.v[i] = Comp<T>::get(t, i); return s; }
    Sample add(const Sample& s) { T t; { Pause q; for (int i = 0; i < Comp<T>::n; ++i) Comp<T>::put(t, i, s.v[i]); } return out(f.add(t)); }
    Sample add_own(int how) { return out(how == 0 ? f.add(f.get()) : how == 1 ? f.add(*f) : f.add(*f.operator->())); }
    Sample get(int how) const { return out(how == 0 ? f.get() : how == 1 ? *f : *f.operator->()); }
    void factor(float k) { f.set_smooth_factor(k); }
    Filter* copy() const { return new FilterOf(*this); }
    bool assign(const Filter& o) { const FilterOf* p = dynamic_cast<const FilterOf*>(&o); if (!p) return false; f = p->f; return true; }
    int window() const { return int(M); }
    int comps() const { return Comp<T>::n; }
    double eps() const { return Comp<T>::eps(); }
    double rounded(double x) const { T t; Comp<T>::put(t, 0, x); return Comp<T>::get(t, 0); }
};
template <class T> static Filter* make_m(int m, float k) {
    switch (m) {
        case 0: return new FilterOf<1, T>(k);
        case 1: return new FilterOf<2, T>(k);
        case 2: return new FilterOf<3, T>(k);
        case 3: return new FilterOf<5, T>(k);
        case 4: return new FilterOf<10, T>(k);
        case 5: return new FilterOf<70, T>(k);
        case 6: return new FilterOf<64, T>(k);
        default: return new FilterOf<300, T>(k);
    }
}
enum { TYPES = 6, SIZES = 8 };
static Filter* make(int type, int m, float k) {
    switch (type) {
        case 0: return make_m<float>(m, k);
        case 1: return make_m<double>(m, k);
        case 2: return make_m<Vector<3, float> >(m, k);
        case 3: return make_m<Vector<4, double> >(m, k);
        case 4: return make_m<std::complex<double> >(m, k);
        default: return make_m<Quaternion<float> >(m, k);
    }
}
static const float factors[] = {0.5f, 0.1f, 0.9f, 0.f, 1.f, 0.99f, 0.25f, 1.25f, -0.5f, 0.3f,
                                0.50000006f, 0.899999f, 0.9f, 0.9999999f, -1.f, 0.001f, 1e-20f, 0.1000001f};
enum { NF = 18 };

// the reference: all samples ever added, and what the newest addition saw
struct Model {
    Filter* f; float factor, at_add; std::vector<Sample> samples; int type, m;
    Model() : f(0), factor(0), at_add(0), type(0), m(0) {}
};
static const Plan* plan;
static Sample sample(const Filter& f, uint64_t seed) {
    Rng r(seed);
    Sample s;
    memset(&s, 0, sizeof s);
    const int style = r.chance(2) ? 5 : int(r.below(5));
    if (style == 5) {                                // not a finite number
        static const double odd[] = {HUGE_VAL, -HUGE_VAL, NAN, 1.};
        for (int i = 0; i < f.comps(); ++i) s.v[i] = odd[r.below(4)];
        return s;
    }
    if (style == 4) {                                // of any size
        static const double mags[] = {1e15, 1e-15, 1e6, 0., -0., 3e-30};
        for (int i = 0; i < f.comps(); ++i) s.v[i] = f.rounded((r.unit() * 2 - 1) * mags[r.below(6)]);
        return s;
    }
    for (int i = 0; i < f.comps(); ++i)
        s.v[i] = f.rounded(style == 0 ? double(r.range(-9, 9)) : style == 1 ? r.unit() * 2 - 1 : style == 2 ? r.unit() * 2000 - 1000 : double(r.range(0, 1)));
    return s;
}
static void check_value(const Model& m, const Sample& got, int id, const char* what) {
    const size_t n = m.samples.size();
    if (!n) return;
    for (int c = 0; c < m.f->comps(); ++c) {
        double v = m.samples[n - 1].v[c], w = double(m.at_add), mag = std::fabs(v);
        bool odd = !std::isfinite(v), whole = true;      // a sample that is not finite; every weight between 0 and 1
        for (size_t k = 1; k < size_t(m.f->window()) && k < n; ++k) {
            const double x = m.samples[n - 1 - k].v[c];
            odd = odd || !std::isfinite(x);
            whole = whole && std::fabs(w) > 1e-30 && 1 - w != 0;
            v = v * (1 - w) + x * w;
            mag = mag * (1 + std::fabs(w)) + std::fabs(x * w);
            w *= double(m.at_add);
        }
        if (odd) {
            if (whole && std::isfinite(got.v[c]))
                violate("value", fmt("operation %d: %s: component %d of the filter (window %d, %d samples) is %.17g although a sample of the window is not finite", id, what, c, m.f->window(), int(n), got.v[c]));
            continue;
        }
        const double tol = m.f->eps() * 16 * (mag + 1e-30) * double(std::min<size_t>(n, size_t(m.f->window())));
        if (!(std::fabs(got.v[c] - v) <= tol) && mag < 1e35)
            violate("value", fmt("operation %d: %s: component %d of the filter (window %d, %d samples, factor %g) is %.17g instead of %.17g",
                                 id, what, c, m.f->window(), int(n), double(m.at_add), got.v[c], v));
    }
}
enum { SLOTS = 6 };
static void body(int t, void*) {
    Model m[SLOTS];
    bool any = false;
    for (size_t li = 0; li < plan->lines.size(); ++li) {
        const Line& l = plan->lines[li];
        if (l.k != "op" || l.arg(1) != t) continue;
        const int id = int(l.arg(0)), kind = int(l.arg(2));
        Model& x = m[size_t(l.arg(3)) % SLOTS];
        note(fmt("operation %d thread %d kind %d filter %d", id, t, kind, int(l.arg(3)) % SLOTS));
        if (kind == 0 || !x.f) {                                    // a new filter
            delete x.f;
            x = Model();
            x.type = int(uint64_t(l.arg(4)) % TYPES); x.m = int(uint64_t(l.arg(5)) % SIZES);
            x.factor = x.at_add = factors[uint64_t(l.arg(6)) % NF];
            OpScope s(id);
            x.f = make(x.type, x.m, x.factor);
            s.end();
            count("op.new");
        } else if (kind == 1) {                                     // samples
            const int n = int(std::min<int64_t>(4000, std::max<int64_t>(1, l.arg(5))));
            const int own = int(l.arg(7, -1));
            fail_alloc(l.arg(6, -1));
            for (int i = 0; i < n; ++i) {
                Sample v = sample(*x.f, uint64_t(l.arg(4)) + uint64_t(i) * 1000003);
                Sample got;
                bool threw = false;
                const bool before = !x.samples.empty();
                Sample old;
                memset(&old, 0, sizeof old);
                if (before) old = x.f->get(0);
                const bool again = before && own >= 0 && i % 3 == own % 3;
                if (again) v = old;
                {
                    OpScope s(id + i * 100000, i == 0);
                    try { got = again ? x.f->add_own(own % 3) : x.f->add(v); s.end(); }
                    catch (const std::bad_alloc&) { s.end(); threw = true; }
                }
                if (threw) {
                    if (!alloc_failed()) violate("threw", fmt("operation %d: adding a sample threw although memory was available", id));
                    count("probe.add_failed");
                    if (before) {
                        const Sample now = x.f->get(0);
                        if (memcmp(&now, &old, sizeof old)) violate("value-after-failure", fmt("operation %d: a failed addition changed the filter's value", id));
                    }
                    continue;
                }
                x.samples.push_back(v);
                x.at_add = x.factor;
                any = any || x.samples.size() > 1;
                check_value(x, got, id, "returned value");
                for (int how = 0; how < 3; ++how) {
                    const Sample now = x.f->get(how);
                    if (memcmp(&now, &got, sizeof got)) violate("return", fmt("operation %d: adding returned something else than the filter's value", id));
                }
                event("add", uint64_t(id), hash_bytes(&got, sizeof got));
                count(again ? "op.add_own_value" : "op.add");
            }
            fail_alloc(-1);
        } else if (kind == 2) {
            const float k = factors[uint64_t(l.arg(4)) % NF];
            OpScope s(id);
            x.f->factor(k);
            s.end();
            x.factor = k;
            count("op.factor");
        } else if (kind == 3) {                                     // a copy, by construction or assignment
            Model& y = m[size_t(l.arg(4)) % SLOTS];
            if (&x != &y) {
                if (y.f && y.type == x.type && y.m == x.m && l.arg(5)) {
                    OpScope s(id);
                    y.f->assign(*x.f);
                    s.end();
                } else {
                    delete y.f; y.f = 0;
                    OpScope s(id);
                    y.f = x.f->copy();
                    s.end();
                }
                y.factor = x.factor; y.at_add = x.at_add; y.samples = x.samples; y.type = x.type; y.m = x.m;
                count("op.copy");
            }
        } else {                                                     // gone
            Filter* f = x.f;
            x = Model();
            OpScope s(id);
            delete f;
            s.end();
        }
        for (int k = 0; k < SLOTS; ++k) if (m[k].f && !m[k].samples.empty()) check_value(m[k], m[k].f->get(0), id, "value");
    }
    for (int k = 0; k < SLOTS; ++k) delete m[k].f;
    if (any) nontrivial();
}
void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    const int64_t threads = r.pick({1, 1, 2, 3, 4}), per = r.range(3, tier ? 40 : 14);
    p.set("threads", threads);
    SwitchGen sg(r);
    const int64_t slots = r.range(1, 4), type = r.below(TYPES), size = r.below(SIZES), fac = r.below(NF);
    const int mixp = int(r.pick({0, 20, 60})), failp = int(r.pick({0, 20, 60}));
    int64_t id = 0;
    for (int64_t i = 0; i < per * threads; ++i) {
        ++id;
        const int64_t t = i % threads, s = r.below(slots);
        const int64_t d = r.below(100);
        if (d < 8 || i / threads == 0) p.add("op", {id, t, 0, s, r.chance(mixp) ? r.below(TYPES) : type, r.chance(mixp) ? r.below(SIZES) : size, r.chance(50) ? fac : r.below(NF)});
        else if (d < 75) {
            const bool burst = r.below(1000) < (tier ? 10 : 4);         // longer than any counter of a byte
            const int64_t n = burst ? (r.chance(70) ? r.range(250, 300) : r.range(1000, tier ? 4000 : 1500)) : r.chance(70) ? 1 : r.range(2, r.chance(40) ? 140 : 12);
            p.add("op", {id, t, 1, s, r.below(1 << 20), n, r.chance(failp) ? (n > 1 ? r.below(4) : r.below(2)) : -1, r.chance(12) ? r.below(9) : -1});
        } else if (d < 88) p.add("op", {id, t, 2, s, r.below(NF)});
        else if (d < 97) p.add("op", {id, t, 3, s, r.below(slots), r.below(2)});
        else p.add("op", {id, t, 4, s});
        if (threads > 1) sg.gen(r, p, int(id), int(threads), int(t));
    }
}
void workload_exec(const Plan& p) {
    plan = &p;
    set_poison(int(p.get("poison", 0xA5)));
    run_threads(int(std::max<int64_t>(1, std::min<int64_t>(8, p.get("threads", 1)))), body, 0);
}
} // namespace sim
