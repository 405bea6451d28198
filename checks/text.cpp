// C05 text serialisation, C06 broken text input, C07 printing - over stream buffers whose chunking and failures the plan decides.
#include "text.hpp"
#include <memory>
#include <map>
#include <typeinfo>

namespace sim {
#if defined(PROP_C05)
const char* const workload_property = "C05";
const char* const workload_rule = "A case is one history of objects and foreign tokens written to a chunked sink under changing number formats and read back, in order, from a chunked source; it is non-trivial if at least two objects were restored.";
#elif defined(PROP_C06)
const char* const workload_property = "C06";
const char* const workload_rule = "A case is one history of reads from sources that end, throw or deliver damaged text at planned positions, with and without stream exceptions, each followed by a repeated read of good input; it is non-trivial if at least one read failed.";
#else
const char* const workload_property = "C07";
const char* const workload_rule = "A case is one history of prints to sinks that refuse, throw or fail to flush at planned bytes, under changing formatting states; it is non-trivial if at least two objects were printed.";
#endif
using namespace text;

struct Settings {
    std::ios_base::fmtflags flags; std::streamsize precision; char fill; std::ios_base::iostate mask; std::locale loc; const void* tied;
    explicit Settings(std::ios& s) : flags(s.flags()), precision(s.precision()), fill(s.fill()), mask(s.exceptions()), loc(s.getloc()), tied(s.tie()) {}
    bool operator==(const Settings& o) const { return flags == o.flags && precision == o.precision && fill == o.fill && mask == o.mask && loc == o.loc && tied == o.tied; }
    std::string show() const { return fmt("flags %x precision %d fill '%c' exceptions %x decimal point '%c'%s", unsigned(flags), int(precision), fill, unsigned(mask),
                                           std::use_facet<std::numpunct<char> >(loc).decimal_point(), tied ? " tied" : ""); }
};
struct World {                                    // every object of the run, to see that others stay as they are
    std::vector<Obj*> o; std::vector<std::string> img;
    ~World() { for (size_t i = 0; i < o.size(); ++i) delete o[i]; }
    Obj* add(Obj* x) { o.push_back(x); img.push_back(x->image()); return x; }
    void refresh(Obj* x) { for (size_t i = 0; i < o.size(); ++i) if (o[i] == x) img[i] = x->image(); }
    void check(const Obj* except, int id, const char* what) {
        for (size_t i = 0; i < o.size(); ++i)
            if (o[i] != except && o[i]->image() != img[i]) violate("other-object", fmt("operation %d: %s changed an object it does not write", id, what));
        if (except) for (size_t i = 0; i < o.size(); ++i)
            if (o[i] == except) {                 // canaries around the object
                std::string now = o[i]->image();
                if (now.compare(0, 48, img[i], 0, 48) || now.compare(now.size() - 48, 48, img[i], now.size() - 48, 48)) violate("outside", fmt("operation %d: %s wrote outside the object", id, what));
            }
    }
};
static const Plan* plan;
#if !defined(PROP_C07)
static std::string tokens(const Obj& o, int64_t settings_code, std::vector<std::string>* each) {
    std::string all;
    for (size_t i = 0; i < o.n(); ++i) {
        std::ostringstream os;
        settings(os, settings_code, false);
        o.show(os, i);
        if (each) each->push_back(os.str());
        all += os.str() + " ";
    }
    return all;
}
#endif
// an operation of the library on a stream: did it throw
template <class F> static bool run_op(int id, F f, std::string* what) {
    bool threw = false;
    OpScope s(id);
    try { f(); s.end(); }
    catch (const std::exception& e) { s.end(); threw = true; *what = e.what(); }
    catch (const Broken&) { s.end(); threw = true; *what = "the stream buffer's exception"; }
    catch (...) { s.end(); threw = true; *what = "unknown"; }
    return threw;
}

#if defined(PROP_C05)
static void body(int, void*) {
    World w;
    Sink sink(size_t(plan->get("area", 0)));
    std::ostream os(&sink);
    Source src;
    std::istream is(&src);
    struct Item { Obj* o; std::string token; std::vector<std::string> want; int64_t code; int id; };
    std::vector<Item> items;
    bool glue = false;                            // the foreign token that follows stands directly behind the last element
    std::vector<size_t> cuts;
    for (size_t li = 0; li < plan->lines.size(); ++li) {
        const Line& l = plan->lines[li];
        if (l.k == "foreign") {
            Item it; it.o = 0; it.id = int(l.arg(0)); it.code = 0;
            it.token = fmt("%c%lld", "x[|-e.n("[uint64_t(l.arg(1)) & 7], (long long)l.arg(2));
            static const char* const sep[] = {" ", "\n", "  \t", "\r\n"};
            if (glue && strchr("|[(", it.token[0])) cuts.push_back(sink.all().size());
            os << it.token << sep[uint64_t(l.arg(3)) % 4];
            glue = false;
            items.push_back(it);
        } else if (l.k == "write") {
            Item it; it.id = int(l.arg(0)); it.code = l.arg(3);
            it.o = w.add(make(((l.arg(1) % STREAM_KINDS) + STREAM_KINDS) % STREAM_KINDS));
            fill(*it.o, uint64_t(l.arg(2)), true);
            w.refresh(it.o);
            settings(os, it.code, false);
            if (it.code == 0) os.imbue(std::locale::classic());
            tokens(*it.o, it.code, &it.want);
            if ((os.flags() & std::ios::adjustfield) != std::ios::internal) os.width(std::streamsize(l.arg(5)));
            const Settings before(os);
            std::string ex;
            const Obj* o = it.o;
            if (run_op(it.id, [o, &os] { o->write(os); }, &ex)) violate("exception", fmt("operation %d: writing threw %s", it.id, ex.c_str()));
            if (!(Settings(os) == before)) violate("settings", fmt("operation %d: writing a %s changed the stream from %s to %s", it.id, o->kind(), before.show().c_str(), Settings(os).show().c_str()));
            if (!os.good()) violate("state", fmt("operation %d: writing left the stream failed", it.id));
            w.check(0, it.id, "writing");
            items.push_back(it);
            glue = l.arg(4) != 0;
            count("op.write");
        }
    }
    os.flush();
    std::string sent = sink.all();
    for (size_t i = cuts.size(); i-- > 0;)
        for (size_t k = cuts[i]; k > 0 && sent[k - 1] == ' '; --k) sent.erase(k - 1, 1);
    src.supply(sent);
    src.chunk = uint64_t(std::max<int64_t>(1, plan->get("chunk", 1)));
    src.salt = uint64_t(plan->get("salt", 0));
    note(fmt("text: %s", src.s.substr(0, 2000).c_str()));
    event("text", hash_bytes(src.s.data(), src.s.size()));
    const bool exceptions = plan->get("exceptions", 0) != 0;
    int restored = 0;
    for (size_t i = 0; i < items.size(); ++i) {
        const Item& it = items[i];
        if (!it.o) {
            std::string t;
            is >> t;
            if (t != it.token) violate("framing", fmt("the token \"%s\" written between the objects came back as \"%s\"", it.token.c_str(), t.c_str()));
            continue;
        }
        // the object read into is of the same kind and holds other values
        const Line* l = 0;
        for (size_t li = 0; li < plan->lines.size(); ++li) if (plan->lines[li].k == "write" && plan->lines[li].arg(0) == it.id) l = &plan->lines[li];
        Obj* t = w.add(make(((l->arg(1) % STREAM_KINDS) + STREAM_KINDS) % STREAM_KINDS));
        fill(*t, uint64_t(l->arg(2)) + 999, true);
        w.refresh(t);
        is.exceptions(std::ios::goodbit);
        settings(is, it.code, false);
        if (it.code == 0) is.imbue(std::locale::classic());
        // where the object's own text ends: element by element from a source that has everything
        Source rs;
        rs.s = src.s.substr(src.consumed()); rs.chunk = 80;
        std::istream peer(&rs);
        settings(peer, it.code, false);
        std::unique_ptr<Obj> plain(make(((l->arg(1) % STREAM_KINDS) + STREAM_KINDS) % STREAM_KINDS));
        for (size_t k = 0; k < plain->n(); ++k) if (!plain->take(peer, k)) invalid();
        const size_t own = src.consumed() + rs.consumed();
        // the writer has sent this object and one character more, and waits for an answer before it goes on
        src.limit = std::max(src.pos, std::min(src.s.size(), own + 1));
        src.starved = false;
        // a stream that skips no white space by itself can still deliver one element
        if (t->n() == 1 && (l->arg(2) & 1)) { if (src.consumed() < src.s.size() && isspace((unsigned char)src.s[src.consumed()])) is >> std::ws; is.unsetf(std::ios::skipws); count("op.read_no_skipping"); }
        if (exceptions) is.exceptions(std::ios::failbit | std::ios::badbit);
        const Settings before(is);
        std::string ex;
        if (run_op(it.id + 1000000, [t, &is] { t->read(is); }, &ex)) violate("exception", fmt("operation %d: reading back threw %s", it.id, ex.c_str()));
        if (!(Settings(is) == before)) violate("settings", fmt("operation %d: reading a %s changed the stream from %s to %s", it.id, t->kind(), before.show().c_str(), Settings(is).show().c_str()));
        if (is.fail()) violate("state", fmt("operation %d: reading back a %s left the stream failed", it.id, t->kind()));
        is.setf(std::ios::skipws);
        w.check(t, it.id, "reading");
        if (src.starved) violate("waits", fmt("operation %d: reading back a %s asks for input beyond its own elements and would wait for it", it.id, t->kind()));
        src.limit = std::string::npos;
        const size_t at = src.consumed();
        if (at != own && !(at == own + 1 && src.s[own] == ' '))
            violate("framing", fmt("operation %d: the text of the %s ends at %zu, but reading stopped at %zu", it.id, t->kind(), own, at));
        // what each printed element stands for
        std::unique_ptr<Obj> ref(make(((l->arg(1) % STREAM_KINDS) + STREAM_KINDS) % STREAM_KINDS));
        for (size_t k = 0; k < it.o->n(); ++k) {
            std::istringstream one(it.want[k]);
            settings(one, it.code, false);
            if (!ref->take(one, k)) invalid();
            const bool enough = it.o->digits() && is.precision() >= it.o->digits() && !(is.flags() & std::ios::fixed);
            if ((enough || !it.o->digits()) ? !t->same(*it.o, k) : !t->same(*ref, k))
                violate("value", fmt("operation %d: element %d of the %s came back as %.17g, written was %.17g as \"%s\"", it.id, int(k), t->kind(), t->get(k), it.o->get(k), it.want[k].c_str()));
        }
        w.refresh(t);
        ++restored;
        count("op.restore");
        event("read", src.consumed());
    }
    // nothing but white space is left
    while (is.exceptions(std::ios::goodbit), is.good()) {
        int c = is.get();
        if (c == EOF) break;
        if (!isspace(c)) violate("framing", fmt("after all objects were read, '%c' is left", c));
    }
    if (restored >= 2) nontrivial();
}
void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    p.set("area", r.pick({0, 1, 7, 80}));
    p.set("chunk", r.pick({1, 2, 5, 80}));
    p.set("salt", r.below(100000));
    p.set("exceptions", r.chance(40));
    const int64_t n = r.range(1, tier ? 20 : 8);
    const bool one = r.chance(50);
    const int64_t code = r.chance(30) ? 0 : r.below(100000), kind = r.below(STREAM_KINDS);
    int64_t id = 0;
    for (int64_t i = 0; i < n; ++i) {
        while (r.chance(35)) p.add("foreign", {++id, r.below(8), r.below(1000), r.below(4)});
        p.add("write", {++id, r.chance(30) ? kind : r.below(STREAM_KINDS), r.below(100000), one ? code : r.chance(30) ? 0 : r.below(100000), r.chance(30), r.chance(15) ? r.below(25) : 0});
    }
    while (r.chance(35)) p.add("foreign", {++id, r.below(8), r.below(1000), r.below(4)});
    if (r.chance(5)) p.set("nested", r.pick({1, 3, 10}));
}
#elif defined(PROP_C06)
static void body(int, void*) {
    World w;
    int failed = 0;
    for (int i = 0; i < 3; ++i) { Obj* o = w.add(make(i * 5)); fill(*o, uint64_t(i), true); w.refresh(o); }
    std::map<int64_t, std::pair<Source*, std::istream*> > streams;
    for (size_t li = 0; li < plan->lines.size(); ++li) {
        // read id kind seed settings stream damage position how mask again
        const Line& l = plan->lines[li];
        if (l.k != "read") continue;
        const int id = int(l.arg(0));
        const int64_t kind = ((l.arg(1) % STREAM_KINDS) + STREAM_KINDS) % STREAM_KINDS, code = l.arg(3);
        std::unique_ptr<Obj> value(make(kind));
        fill(*value, uint64_t(l.arg(2)), true);
        Obj* t = w.add(make(kind));
        fill(*t, uint64_t(l.arg(2)) + 999, true);
        w.refresh(t);
        std::unique_ptr<Obj> old(make(kind));
        for (size_t i = 0; i < t->n(); ++i) old->copy(i, *t);
        std::pair<Source*, std::istream*>& st = streams[l.arg(4)];
        if (!st.first) { st.first = new Source; st.second = new std::istream(st.first); }
        Source& src = *st.first;
        std::istream& is = *st.second;
        std::string text = tokens(*value, code, 0);
        const size_t pos = size_t(l.arg(6)) % (text.size() + 1);
        const int damage = int(uint64_t(l.arg(5)) % 6);
        static const char* const junk[] = {"x", "abc ", "- ", " . ", "[", "#", "e5 ", "nan ", "99999999999999999999999999999999999999999999", "1e99999 ", "1e-99999 ", "-99999999999 "};
        std::string bad = text;
        if (damage == 1) bad = text.substr(0, pos);
        else if (damage == 2) { bad.insert(pos, junk[uint64_t(l.arg(7)) % 12]); }
        else if (damage == 3 && !bad.empty()) { bad[pos % bad.size()] = junk[uint64_t(l.arg(7)) % 12][0]; }
        if (l.arg(8) & 2) text.erase(text.find_last_not_of(' ') + 1);   // the tail stands directly behind the last element
        const std::string tail = l.arg(8) & 2 ? "|tail" : "tail", after = bad + (damage == 1 ? "" : tail);
        for (int attempt = 0; attempt < (l.arg(9) & 1 ? 2 : 1); ++attempt) {
            const bool good = attempt == 1;
            is.exceptions(std::ios::goodbit);
            is.clear();
            settings(is, code, false);
            if (code == 0) is.imbue(std::locale::classic());
            const bool noskip = !good && (l.arg(9) & 2);
            if (noskip) is.unsetf(std::ios::skipws); else is.setf(std::ios::skipws);
            src.supply(good ? text + tail : after);
            src.chunk = uint64_t(1 + uint64_t(l.arg(8)) / 4 % 80);
            src.salt = uint64_t(l.arg(8));
            if (!good && damage >= 4) { src.how = damage - 3; src.fail_at = int64_t(pos); src.once = (l.arg(7) & 1) != 0; }
            src.fired = false;
            const bool mask = (l.arg(8) & 1) != 0;
            if (mask) is.exceptions(std::ios::failbit | std::ios::badbit);
            // the delivered elements, by extracting one number after the other from a source that behaves the same
            Source rs;
            rs.s = src.s; rs.chunk = src.chunk; rs.salt = src.salt; rs.n = src.n; rs.how = src.how; rs.fail_at = src.fail_at; rs.once = src.once;
            std::istream ref(&rs);
            settings(ref, code, false);
            if (noskip) ref.unsetf(std::ios::skipws);
            std::unique_ptr<Obj> want(make(kind));
            size_t k = 0;
            while (k < want->n() && want->take(ref, k)) ++k;
            const bool complete = k == want->n();
            for (size_t i = 0; i < old->n(); ++i) old->copy(i, *t);
            const Settings before(is);
            std::string ex;
            note(fmt("operation %d attempt %d: %s from \"%s\"%s, %d of %d elements delivered", id, attempt, t->kind(), src.s.substr(0, 300).c_str(),
                     src.how ? fmt(" (%s at %d%s)", src.how == 1 ? "ends" : "throws", int(src.fail_at), src.once ? ", then goes on" : "").c_str() : "", int(k), int(t->n())));
            const bool threw = run_op(id + attempt * 1000000, [t, &is] { t->read(is); }, &ex);
            is.exceptions(std::ios::goodbit);
            if (complete) {
                if (threw) violate("exception", fmt("operation %d: complete input, but reading threw %s", id, ex.c_str()));
                if (is.fail()) violate("state", fmt("operation %d: complete input, but the stream has failed", id));
            } else {
                ++failed;
                count(src.fired ? "op.read_source_failed" : damage == 1 ? "op.read_truncated" : "op.read_malformed");
                if (!is.fail()) violate("no-failure", fmt("operation %d: only %d of %d elements were delivered, but the stream shows no failure", id, int(k), int(t->n())));
                if (threw && !mask) violate("exception", fmt("operation %d: reading threw %s although exceptions are off", id, ex.c_str()));
                if (!threw && mask) violate("not-thrown", fmt("operation %d: only %d of %d elements were delivered and exceptions are on, but nothing was thrown", id, int(k), int(t->n())));
            }
            if (!complete && mask) count("op.read_threw");
            Settings now(is);
            now.mask = before.mask;
            if (!(now == before)) violate("settings", fmt("operation %d: reading changed the stream's formatting", id));
            for (size_t i = 0; i < t->n(); ++i) {
                if (i < k && !t->same(*want, i)) violate("prefix", fmt("operation %d: element %d was delivered as %.17g but is %.17g (%d delivered)", id, int(i), want->get(i), t->get(i), int(k)));
                if (i > k && !t->same(*old, i)) violate("rest", fmt("operation %d: element %d was not delivered but changed from %.17g to %.17g (%d delivered)", id, int(i), old->get(i), t->get(i), int(k)));
            }
            if (complete && rs.consumed() > src.consumed()) violate("framing", fmt("operation %d: reading stopped early", id));
            if (complete && src.consumed() > rs.consumed() + (rs.consumed() < src.s.size() && src.s[rs.consumed()] == ' ')) violate("framing", fmt("operation %d: reading went on behind the last element", id));
            if (good) {
                if (!complete) invalid();
                std::string rest;
                is >> rest;
                if (rest != tail) violate("framing", fmt("operation %d: after the object \"%s\" is left instead of \"%s\"", id, rest.c_str(), tail.c_str()));
                count("op.read_again");
            }
            w.check(t, id, "reading");
            w.refresh(t);
            event("read", k, src.consumed());
        }
    }
    for (std::map<int64_t, std::pair<Source*, std::istream*> >::iterator i = streams.begin(); i != streams.end(); ++i) { delete i->second.second; delete i->second.first; }
    if (failed) nontrivial();
}
void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    const int64_t n = r.range(1, tier ? 12 : 6);
    const int64_t kind = r.below(STREAM_KINDS);
    for (int64_t i = 1; i <= n; ++i)
        p.add("read", {i, r.chance(40) ? kind : r.below(STREAM_KINDS), r.below(100000), r.chance(50) ? 0 : r.below(100000), r.below(2), r.below(6), r.below(4000), r.below(24), r.below(400), r.below(2) + (r.chance(10) ? 2 : 0)});
    if (r.chance(5)) p.set("nested", r.pick({1, 3, 10}));
}
#else
static void body(int, void*) {
    World w;
    int printed = 0;
    struct Stream { Sink sink; std::ostream os; explicit Stream(size_t a) : sink(a), os(&sink) {} };
    std::map<int64_t, Stream*> streams;
    std::map<int64_t, Obj*> objs;
    std::map<int64_t, bool> comma;
    for (size_t li = 0; li < plan->lines.size(); ++li) {
        const Line& l = plan->lines[li];
        if (l.k == "format") {                                    // format stream code
            std::map<int64_t, Stream*>::iterator s = streams.find(l.arg(0));
            if (s == streams.end()) continue;
            s->second->os.imbue(std::locale::classic());
            s->second->os.fill(' ');
            settings(s->second->os, l.arg(1), true);
            continue;
        }
        if (l.k != "print") continue;
        // print id kind object seed stream width mask fault position how once area
        const int id = int(l.arg(0));
        Obj*& o = objs[l.arg(2) * KINDS + ((l.arg(1) % KINDS) + KINDS) % KINDS];
        if (!o) { o = w.add(make(l.arg(1))); fill(*o, uint64_t(l.arg(3)), false); w.refresh(o); }
        Stream*& st = streams[l.arg(4)];
        if (!st) st = new Stream(size_t(l.arg(11)));
        std::ostream& os = st->os;
        os.exceptions(std::ios::goodbit);
        os.clear();
        st->sink.heal();
        os.flush();
        // what a working sink gets
        std::ostringstream model;
        model.flags(os.flags()); model.precision(os.precision()); model.fill(os.fill()); model.imbue(os.getloc());
        os.width(std::streamsize(l.arg(5))); model.width(std::streamsize(l.arg(5)));
        o->model(model);
        const std::string want = model.str(), had = st->sink.all();
        // which piece of the text takes a width set before the print is not promised: its padding is left out
        const char pad = os.fill();
        const bool padded = l.arg(5) != 0;
        const auto bare = [padded, pad](const std::string& t) {
            if (!padded) return t;
            std::string u;
            for (size_t k = 0; k < t.size(); ++k) if (t[k] != pad && t[k] != ' ') u += t[k];
            return u;
        };
        const bool fault = l.arg(7) != 0;
        const int how = 1 + int(l.arg(9) & 1);
        st->sink.fired = false;
        st->sink.once = l.arg(10) != 0;
        if (l.arg(7) == 1) { st->sink.room = int64_t(uint64_t(l.arg(8)) % (want.size() + 1)); st->sink.how = how; }
        else if (l.arg(7) == 2) { st->sink.sync_fail = int64_t(uint64_t(l.arg(8)) % 8); st->sink.how = how; }
        const bool unit = !fault && (l.arg(8) & 3) == 1;          // flush after every output
        if (unit) os.setf(std::ios::unitbuf);
        if (l.arg(6)) os.exceptions(std::ios::failbit | std::ios::badbit);
        const Settings before(os);
        std::string ex;
        note(fmt("operation %d: print %s, %d bytes expected, fault %d at %d how %d, %s", id, o->kind(), int(want.size()), int(l.arg(7)), int(l.arg(8)), how, before.show().c_str()));
        const Obj* co = o;
        const bool threw = run_op(id, [co, &os] { co->print(os); }, &ex);
        const Settings now(os);
        os.exceptions(std::ios::goodbit);
        os.unsetf(std::ios::unitbuf);
        if (!(now == before)) violate("settings", fmt("operation %d: printing a %s%s changed the stream from %s to %s", id, o->kind(), st->sink.fired ? " to a failing sink" : "", before.show().c_str(), now.show().c_str()));
        w.check(0, id, "printing");
        const std::string all = st->sink.all();
        if (all.compare(0, had.size(), had) != 0) violate("text", fmt("operation %d: printing changed what was printed before", id));
        const std::string got = all.substr(had.size());
        if (!st->sink.fired) {
            if (threw) violate("exception", fmt("operation %d: printing to a working sink threw %s", id, ex.c_str()));
            if (!os.good()) violate("state", fmt("operation %d: printing to a working sink left the stream failed", id));
            if (bare(got) != bare(want)) violate("text", fmt("operation %d: printing a %s with %s gave \"%s\" instead of \"%s\"", id, o->kind(), before.show().c_str(), got.c_str(), want.c_str()));
            count("op.print");
        } else {
            if (threw && !l.arg(6)) violate("exception", fmt("operation %d: printing threw %s although exceptions are off", id, ex.c_str()));
            if (!os.fail()) violate("no-failure", fmt("operation %d: the sink failed while a %s was printed, but the stream shows no failure", id, o->kind()));
            if (const size_t n = bare(got).size()) if (bare(want).compare(0, n, bare(got)) != 0) violate("text", fmt("operation %d: a failed print delivered \"%s\", no prefix of \"%s\"", id, got.c_str(), want.c_str()));
            count(threw ? "op.print_threw" : "op.print_failed");
        }
        ++printed;
        event("print", uint64_t(id), hash_bytes(got.data(), got.size()));
        st->sink.heal();
    }
    for (std::map<int64_t, Stream*>::iterator i = streams.begin(); i != streams.end(); ++i) delete i->second;
    if (printed >= 2) nontrivial();
}
void workload_gen(Rng& r, Plan& p, int tier) {
    p.set("poison", r.pick({0xA5, 0x00, 0xFF, 0x5A}));
    const int64_t n = r.range(2, tier ? 30 : 10);
    const int64_t kind = r.below(KINDS);
    const int faults = int(r.pick({0, 30, 70}));
    for (int64_t i = 1; i <= n; ++i) {
        const int64_t s = r.below(2);
        if (i > 1 && r.chance(50)) p.add("format", {s, r.chance(20) ? 0 : r.below(100000)});
        p.add("print", {i, r.chance(50) ? kind : r.below(KINDS), r.below(2), r.below(100000), s, r.chance(20) ? r.below(30) : 0, r.chance(40),
                        r.chance(faults) ? r.range(1, 2) : 0, r.below(4000), r.below(2), r.chance(30), r.pick({0, 1, 7, 80})});
    }
    if (r.chance(5)) p.set("nested", r.pick({1, 3, 10}));
}
#endif
void workload_exec(const Plan& p) {
    plan = &p;
    grouping() = true;
    nest().every = std::max<int64_t>(0, p.get("nested", 0));
    set_poison(int(p.get("poison", 0xA5)));
    run_threads(1, body, 0);
}
} // namespace sim
