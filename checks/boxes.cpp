// C16: a bound computed by workers that merge points into partial boxes and send them over a network that loses, duplicates,
// delays and reorders, with worker restarts; every box is compared with the exact bound of what was merged into it.
#include <cstdint>
#include <cmath>
#include <cassert>
#include <vmmlib/vector.hpp>
#include <vmmlib/aabb.hpp>
#include "sim.hpp"

namespace sim {
const char* const workload_property = "C16";
const char* const workload_rule = "A case is one reduction of points over one to four workers (threads) with messages delivered late, repeatedly, in any order or not at all until retransmitted, and restarts of workers and reducer; every box is compared with the exact componentwise bound after every step. It is non-trivial if at least one point was merged.";
using vmml::Vector;
using vmml::AABB;
enum { WORKERS = 4, POINTS = 24, TYPES = 8, MSGS = 256 };

template <class T> struct Bound { bool any; T lo[3], hi[3]; Bound() : any(false) {} };
template <class T> static void grow(Bound<T>& b, const T* lo, const T* hi) {
    for (int i = 0; i < 3; ++i) {
        if (!b.any || lo[i] < b.lo[i]) b.lo[i] = lo[i];
        if (!b.any || hi[i] > b.hi[i]) b.hi[i] = hi[i];
    }
    b.any = true;
}
template <class T> static T make_value(Rng& r, int style) {
    typedef std::numeric_limits<T> L;
    const bool i = L::is_integer, s = L::is_signed;
    switch (style) {
        case 0: return T(s ? r.range(-5, 5) : r.range(0, 10));
        case 1: return T(i ? double(s ? r.range(-100, 100) : r.range(0, 100)) : r.unit() * 200 - 100);
        case 2: return i ? (r.chance(50) ? L::max() : L::min()) : (r.chance(50) ? T(L::max()) : T(-L::max()));
        case 3: return i ? T(r.chance(50) ? 0 : s ? -1 : 1) : r.pick({T(0), T(-0.0), T(L::min()), T(-L::min()), T(L::denorm_min())});
        case 4: return T(s ? -1 - r.below(50) : r.below(50));       // all on one side of zero
        case 5: return T(1 + r.below(50));
        default: return i ? T(r.next()) : T((r.unit() - 0.5) * std::pow(10.0, double(r.range(-30, 30))));
    }
}
template <class T> static T above(T v) { return std::numeric_limits<T>::is_integer ? T(v + 1) : T(std::nextafter(v, std::numeric_limits<T>::infinity())); }
template <class T> static T below(T v) { return std::numeric_limits<T>::is_integer ? T(v - 1) : T(std::nextafter(v, -std::numeric_limits<T>::infinity())); }
static std::string show(double a) { return fmt("%.17g", a); }

template <class T> struct Sim {
    const Plan* plan;
    struct Pt { T v[3]; };
    std::vector<Pt> points;
    struct Box { AABB<T> box; Bound<T> bound; };
    Box* worker[WORKERS];
    Box* reducer;
    struct Msg { AABB<T> box; Bound<T> bound; };
    std::vector<Msg> net;

    void check(Box& b, int id, const char* who) {
        AABB<T>& x = b.box;
        const Vector<3, T>& lo = static_cast<const AABB<T>&>(x).getMin();
        const Vector<3, T>& hi = static_cast<const AABB<T>&>(x).getMax();
        const bool empty = x.isEmpty();
        if (!b.bound.any) {
            if (!empty) violate("empty", fmt("operation %d: the %s's box is not empty although nothing was merged", id, who));
            return;
        }
        bool flat = false;
        for (int i = 0; i < 3; ++i) {
            if (!(lo.array[i] == b.bound.lo[i]) || !(hi.array[i] == b.bound.hi[i]))
                violate("bound", fmt("operation %d: the %s's box is [%s,%s] on axis %d instead of [%s,%s]", id, who, show(double(lo.array[i])).c_str(), show(double(hi.array[i])).c_str(),
                                     i, show(double(b.bound.lo[i])).c_str(), show(double(b.bound.hi[i])).c_str()));
            flat = flat || !(b.bound.lo[i] < b.bound.hi[i]);
        }
        if (empty != flat) violate("is-empty", fmt("operation %d: isEmpty of the %s's box is %d", id, who, int(empty)));
        // inside and outside
        for (int c = 0; c < 8; ++c) {
            Vector<3, T> p;
            for (int i = 0; i < 3; ++i) p.array[i] = (c >> i) & 1 ? b.bound.hi[i] : b.bound.lo[i];
            if (!x.isIn(p) || !x.isIn2d(p)) violate("inside", fmt("operation %d: a corner of the bound is outside the %s's box", id, who));
            for (int i = 0; i < 3; ++i) {
                const bool up = (c >> i) & 1;
                Vector<3, T> q(p);
                if (up ? !(b.bound.hi[i] < std::numeric_limits<T>::max()) : !(b.bound.lo[i] > (std::numeric_limits<T>::is_integer ? std::numeric_limits<T>::min() : -std::numeric_limits<T>::max()))) continue;
                q.array[i] = up ? above(p.array[i]) : below(p.array[i]);
                if (x.isIn(q)) violate("outside", fmt("operation %d: a point beyond the bound on axis %d is inside the %s's box", id, i, who));
                if (x.isIn2d(q) != (i == 2)) violate("outside2d", fmt("operation %d: a point beyond the bound on axis %d, seen in the plane", id, i));
            }
        }
    }
    void merged_inside(Box& b, int id, const Pt& p) {
        Vector<3, T> v(p.v[0], p.v[1], p.v[2]);
        if (!b.box.isIn(v)) violate("merged-outside", fmt("operation %d: a point just merged is not in the box", id));
    }
    void step(const Line& l, int t) {
        const int id = int(l.arg(0)), kind = int(l.arg(2));
        Box& w = *worker[t];
        switch (kind) {
            case 0: {                                        // a point, own or reread after a restart
                if (points.empty()) return;
                const Pt& p = points[size_t(l.arg(3)) % points.size()];
                const Vector<3, T> v(p.v[0], p.v[1], p.v[2]);
                OpScope s(id); w.box.merge(v); s.end();
                grow(w.bound, p.v, p.v);
                merged_inside(w, id, p);
                count("op.merge_point"); nontrivial();
                break;
            }
            case 1: {                                        // a box between two points
                if (points.empty()) return;
                const Pt& a = points[size_t(l.arg(3)) % points.size()]; const Pt& b = points[size_t(l.arg(4)) % points.size()];
                Vector<3, T> lo, hi;
                for (int i = 0; i < 3; ++i) { lo.array[i] = std::min(a.v[i], b.v[i]); hi.array[i] = std::max(a.v[i], b.v[i]); }
                OpScope s(id);
                if (l.arg(5) & 1) { AABB<T> x(lo, hi); w.box.merge(x); }
                else if (l.arg(5) & 2) { AABB<T> x; x.set(lo, hi); w.box.merge(x); }
                else { AABB<T> x; x.setMin(lo); x.setMax(hi); w.box.merge(x); }
                s.end();
                grow(w.bound, lo.array, hi.array);
                count("op.merge_box"); nontrivial();
                break;
            }
            case 2: {                                        // send the partial bound
                if (net.size() >= MSGS) return;
                OpScope s(id); AABB<T> copy(w.box); s.end();
                Msg m; m.box = copy; m.bound = w.bound;
                net.push_back(m);
                count("op.send");
                break;
            }
            case 3: {                                        // deliver a message to the reducer or to another worker, perhaps again
                if (net.empty()) return;
                // merged from the place the message lies in; the array must not move meanwhile
                const Msg m = net[size_t(l.arg(3)) % net.size()];
                Box& to = l.arg(4) < 0 ? *reducer : w;
                if (&to == reducer && t != 0) return;        // the reducer's box belongs to thread 0
                OpScope s(id); to.box.merge(m.box); s.end();
                if (m.bound.any) grow(to.bound, m.bound.lo, m.bound.hi);
                check(to, id, &to == reducer ? "reducer" : "worker");
                count("net.deliver");
                break;
            }
            case 4: {                                        // the worker restarts with an empty box
                OpScope s(id);
                if (l.arg(3) & 1) w.box = AABB<T>(); else w.box.setEmpty();
                s.end();
                w.bound = Bound<T>();
                count("fault.worker_restart");
                break;
            }
            case 5: {                                        // an empty box arrives
                AABB<T> e;
                if (l.arg(3) & 1) { if (!points.empty()) e.merge(Vector<3, T>(points[0].v[0], points[0].v[1], points[0].v[2])); e.setEmpty(); }
                OpScope s(id); w.box.merge(e); s.end();
                count("op.merge_empty");
                break;
            }
            case 6: {                                        // a message is lost
                if (net.empty()) return;
                const size_t k = size_t(l.arg(3)) % net.size();
                net.erase(net.begin() + std::ptrdiff_t(k));
                count("fault.message_lost");
                break;
            }
            case 8: {                                        // the reducer restarts and starts over
                if (t != 0) return;
                OpScope s(id);
                if (l.arg(3) & 1) reducer->box = AABB<T>(); else reducer->box.setEmpty();
                s.end();
                reducer->bound = Bound<T>();
                check(*reducer, id, "reducer");
                count("fault.reducer_restart");
                break;
            }
            case 9: {                                        // a worker's box is what it last sent, replaced in place
                if (net.empty()) return;
                const Msg m = net[size_t(l.arg(3)) % net.size()];
                OpScope s(id);
                if (!m.bound.any || (l.arg(4) & 1)) w.box = m.box;
                else if (l.arg(4) & 2) w.box.set(static_cast<const AABB<T>&>(m.box).getMin(), static_cast<const AABB<T>&>(m.box).getMax());
                else { w.box.setMin(static_cast<const AABB<T>&>(m.box).getMin()); w.box.setMax(static_cast<const AABB<T>&>(m.box).getMax()); }
                s.end();
                w.bound = m.bound;
                count("op.restore");
                break;
            }
            default: {                                       // a box merged with itself
                OpScope s(id); w.box.merge(w.box); s.end();
                count("op.merge_self");
            }
        }
        check(w, id, "worker");
        const double lo = w.bound.any ? double(w.bound.lo[0]) : 0;
        event("box", uint64_t(id), hash_bytes(&lo, sizeof lo));
    }
    static void body(int t, void* p) {
        Sim& S = *static_cast<Sim*>(p);
        for (size_t i = 0; i < S.plan->lines.size(); ++i)
            if (S.plan->lines[i].k == "op" && S.plan->lines[i].arg(1) == t) S.step(S.plan->lines[i], t);
    }
    // faults have stopped: every worker reads all its points again and retransmits until the reducer has everything
    static void heal(int, void* p) {
        Sim& S = *static_cast<Sim*>(p);
        Bound<T> all;
        const size_t W = size_t(std::max<int64_t>(1, S.plan->get("threads", 1)));
        for (size_t t = 0; t < W; ++t) {
            for (size_t i = 0; i < S.points.size(); ++i) {
                if (i % W != t) continue;
                OpScope s(900000 + int(i));
                S.worker[t]->box.merge(Vector<3, T>(S.points[i].v[0], S.points[i].v[1], S.points[i].v[2]));
                s.end();
                grow(S.worker[t]->bound, S.points[i].v, S.points[i].v);
            }
            S.check(*S.worker[t], 900000, "worker");
        }
        for (size_t t = 0; t < W; ++t) {
            OpScope s(910000 + int(t));
            S.reducer->box.merge(S.worker[t]->box);
            s.end();
            if (S.worker[t]->bound.any) grow(S.reducer->bound, S.worker[t]->bound.lo, S.worker[t]->bound.hi);
        }
        S.check(*S.reducer, 910000, "reducer");
        for (size_t i = 0; i < S.points.size(); ++i) S.merged_inside(*S.reducer, 910001, S.points[i]);
        // the same bound in one pass, in another order
        AABB<T> once;
        for (size_t i = S.points.size(); i-- > 0;) { OpScope s(920000); once.merge(Vector<3, T>(S.points[i].v[0], S.points[i].v[1], S.points[i].v[2])); s.end(); }
        if (!S.points.empty() && !S.reducer->bound.any) violate("lost", "the reducer saw nothing");
        count("probe.healed");
    }
    void go(const Plan& p) {
        plan = &p;
        for (size_t i = 0; i < p.lines.size(); ++i)
            if (p.lines[i].k == "point" && points.size() < POINTS) {
                Rng r(uint64_t(p.lines[i].arg(0)));
                Pt x;
                for (int k = 0; k < 3; ++k) x.v[k] = make_value<T>(r, int(p.lines[i].arg(1)));
                points.push_back(x);
            }
        for (int i = 0; i < WORKERS; ++i) worker[i] = new Box;
        reducer = new Box;
        for (int i = 0; i < WORKERS; ++i) check(*worker[i], 0, "worker");
        net.reserve(MSGS + 1);
        run_threads(int(std::max<int64_t>(1, std::min<int64_t>(WORKERS, p.get("threads", 1)))), body, this);
        load_switches(Plan());
        run_threads(1, heal, this);
    }
};
void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    p.set("type", r.below(TYPES));
    const int64_t threads = r.range(1, WORKERS), per = r.range(2, tier ? 30 : 12);
    p.set("threads", threads);
    const int64_t n = r.range(1, POINTS), style = r.below(7);
    const int mixp = int(r.pick({0, 30, 80}));
    for (int64_t i = 0; i < n; ++i) p.add("point", {r.below(1 << 30), r.chance(mixp) ? r.below(7) : style});
    SwitchGen sg(r);
    const int faults = int(r.pick({0, 10, 30}));
    for (int64_t i = 0; i < per * threads; ++i) {
        const int64_t id = i + 1, t = i % threads;
        if (r.chance(faults)) p.add("op", {id, t, int64_t(r.pick({4, 4, 6, 6, 8})), r.below(64)});
        else switch (r.below(10)) {
            case 0: case 1: case 2: p.add("op", {id, t, 0, r.below(64)}); break;
            case 3: p.add("op", {id, t, 1, r.below(64), r.below(64), r.below(4)}); break;
            case 4: case 5: p.add("op", {id, t, 2}); break;
            case 6: case 7: case 8: p.add("op", {id, t, 3, r.below(64), r.chance(50) ? -1 : 0}); break;
            default: p.add("op", {id, t, int64_t(r.pick({5, 5, 7, 9, 9})), r.below(64), r.below(4)}); break;
        }
        if (threads > 1) sg.gen(r, p, int(id), int(threads), int(t));
    }
}
void workload_exec(const Plan& p) {
    set_poison(int(p.get("poison", 0xA5)));
    switch (p.get("type", 0)) {
        case 0: { static Sim<float> s; s.go(p); break; }
        case 1: { static Sim<double> s; s.go(p); break; }
        case 2: { static Sim<int> s; s.go(p); break; }
        case 3: { static Sim<unsigned> s; s.go(p); break; }
        case 4: { static Sim<long double> s; s.go(p); break; }
        case 5: { static Sim<short> s; s.go(p); break; }
        case 6: { static Sim<signed char> s; s.go(p); break; }
        case 7: { static Sim<long> s; s.go(p); break; }
        default: invalid();
    }
}
} // namespace sim
